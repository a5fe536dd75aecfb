//! Generators: numbers, strings, names, types, values, and whole documents together with the value
//! they denote (computed while generating, not by parsing).

use crate::engine::Src;
use crate::mval::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::collections::BTreeSet;
use std::rc::Rc;

pub const RESERVED: [&str; 7] = ["null", "true", "false", "Obj", "Str", "Arr", "Tup"];

pub fn pow10(n: usize) -> BigInt {
    let mut r = BigInt::one();
    let ten = BigInt::from(10);
    for _ in 0..n {
        r = r * &ten;
    }
    r
}

/// Value of a digit string, by Horner's rule.
pub fn digits_value(s: &str) -> BigInt {
    let mut r = BigInt::zero();
    let ten = BigInt::from(10);
    for c in s.bytes() {
        r = r * &ten + BigInt::from(c - b'0');
    }
    r
}

pub fn digits(s: &mut Src, max: usize) -> String {
    let n = match s.weighted(&[400, 300, 200, 80, 18, 2]) {
        0 => 1,
        1 => s.range(1, 3),
        2 => s.range(1, 12),
        3 => s.range(17, 42),
        4 => s.range(1, max.max(1)),
        _ => s.near(1, max.max(1) as u64) as usize,
    }
    .min(max.max(1));
    let style = s.weighted(&[6, 1, 1, 1]);
    (0..n)
        .map(|i| match style {
            0 => (b'0' + s.below(10) as u8) as char,
            1 => '9',
            2 => {
                if i == 0 {
                    '1'
                } else {
                    '0'
                }
            }
            _ => '0',
        })
        .collect()
}

pub fn edge_ints() -> Vec<BigInt> {
    let mut v = vec![];
    for b in [7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        let p = BigInt::one() << b;
        for d in -2i32..=2 {
            v.push(&p + BigInt::from(d));
            v.push(-(&p) + BigInt::from(d));
        }
    }
    v
}

pub fn gen_int(s: &mut Src) -> BigInt {
    match s.weighted(&[50, 15, 15, 13, 4, 3]) {
        5 => {
            // Beside a power, or a number the code mentions.
            let v = match s.below(3) {
                0 => pow10(s.usize(40)),
                1 => BigInt::one() << s.usize(200),
                _ => BigInt::from(s.near(1, i64::MAX as u64)),
            } + BigInt::from(s.below(5) as i64 - 2);
            if s.bool() {
                -v
            } else {
                v
            }
        }
        0 => {
            let k = s.below(13) as i64;
            BigInt::from(if k % 2 == 1 { -(k + 1) / 2 } else { k / 2 })
        }
        1 => BigInt::from(s.below(200_000) as i64 - 100_000),
        2 => {
            let e = edge_ints();
            s.pick(&e).clone()
        }
        3 => {
            let v = digits_value(&digits(s, 40));
            if s.bool() {
                -v
            } else {
                v
            }
        }
        _ => {
            let v = digits_value(&digits(s, 400));
            if s.bool() {
                -v
            } else {
                v
            }
        }
    }
}

pub fn gen_frac(s: &mut Src) -> BigRational {
    match s.weighted(&[30, 25, 20, 15, 10]) {
        // Decimal.
        0 => {
            let n = BigInt::from(s.below(2001) as i64 - 1000);
            BigRational::new(n, pow10(s.usize(4)))
        }
        1 => {
            let n = BigInt::from(s.below(41) as i64 - 20);
            BigRational::new(n, BigInt::from(1 + s.below(12)))
        }
        2 => BigRational::new(gen_int(s), BigInt::one()),
        3 => {
            let d = gen_int(s).abs();
            BigRational::new(gen_int(s), if d.is_zero() { BigInt::one() } else { d })
        }
        _ => {
            let k = s.usize(30);
            BigRational::new(gen_int(s), pow10(k))
        }
    }
}

pub const SPECIALS: [char; 30] = [
    '"', '\\', '\'', '$', '\n', '\r', '\t', '#', '{', '}', '[', ']', '(', ')', '<', '>', ':', '@', '^', '.', ' ', 'n',
    'r', 't', '+', '-', '/', '_', ',', '0',
];
const ODD: [char; 48] = [
    '²', 'Ⅷ', '½', 'İ', 'ſ', 'K', '\u{301}', '\u{200d}', '０', '：', '＂', '｛', '＃', '．', '＠', '“', '\u{ad}', '\u{61c}',
    '\u{202e}', '\u{e000}',
    '\0', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', 'é', 'ß',
    'Ω', 'я', '٣', '漢', '\u{200b}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '😀',
    '\u{10ffff}', '\u{d7ff}', 'ª',
];

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[80, 70, 30, 20, 4]) {
        4 => s.known_char(),
        0 => (b'a' + s.below(26) as u8) as char,
        1 => *s.pick(&SPECIALS),
        2 => *s.pick(&ODD),
        _ => loop {
            let x = match s.below(4) {
                0 => s.below(0x80),
                1 => s.below(0x800),
                2 => s.below(0x10000),
                _ => s.below(0x110000),
            };
            if let Some(c) = char::from_u32(x as u32) {
                return c;
            }
            return 'x';
        },
    }
}

pub fn gen_string(s: &mut Src) -> String {
    match s.weighted(&[220, 120, 40, 16, 12, 6, 1]) {
        5 => {
            // What the code mentions.
            let mut t: String = s.known_string();
            match s.below(4) {
                0 => {}
                1 => t.push(gen_char(s)),
                2 => t.insert(0, gen_char(s)),
                _ => t = s.list(0, 4, |s, _| gen_char(s)).into_iter().collect::<String>() + &t,
            }
            t
        }
        6 => {
            let c = gen_char(s);
            let n = s.near(9, 10_000) as usize;
            std::iter::repeat(c).take(n).collect()
        }
        4 => {
            // A unit of a few characters or pieces, many times.
            let unit = if s.bool() {
                s.list(1, 4, |s, _| gen_char(s)).into_iter().collect::<String>()
            } else {
                s.list(1, 3, |s, _| s.pick(&["\r\n", "line", "\n", "\\", "\"", " ", "\t", "é", "漢", "\\n", "x", "\r"]).to_string()).concat()
            };
            let n = [8, 60, 300][s.weighted(&[50, 35, 15])];
            unit.repeat(s.usize(n))
        }
        0 => s.list(0, 8, |s, _| gen_char(s)).into_iter().collect(),
        1 => s.list(0, 40, |s, _| gen_char(s)).into_iter().collect(),
        2 => {
            // Confusing pieces.
            let pieces = [
                "\\n", "\\\\", "\\\"", "\"", "# not a comment", "\r\n", "a: 1", "${x}", "\n}", "\\u0041", "\t", "<\"x\">", "\\",
                "null", "'", " ", "$HOME", "$PATH", "${HOME}", "%41", "&amp;", "{0}", "~", "\\x41", "$(a)", "`a`", "#[", "]#",
            ];
            s.list(1, 8, |s, _| s.pick(&pieces).to_string()).concat()
        }
        _ => {
            let c = gen_char(s);
            let n = s.usize(600);
            std::iter::repeat(c).take(n).collect()
        }
    }
}

pub fn is_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
pub fn is_part(c: char) -> bool {
    is_start(c) || c.is_ascii_digit()
}
/// The specification's notion of a valid field name.
pub fn valid_name(n: &str) -> bool {
    let mut cs = n.chars();
    match cs.next() {
        Some(c) if is_start(c) => cs.all(is_part),
        _ => false,
    }
}
pub fn reserved(n: &str) -> bool {
    RESERVED.contains(&n)
}

const LETTERS: [char; 16] = ['a', 'b', 'x', 'Z', '_', 'é', 'ß', 'Ω', 'я', '漢', 'ª', 'ǅ', '\u{5d0}', '𝒳', 'ŉ', 'ﬁ'];

/// A legal name which is not reserved.
pub fn gen_name(s: &mut Src) -> String {
    match s.weighted(&[500, 200, 150, 150, 6, 15]) {
        5 => {
            let t: String = s.known_string().chars().filter(|c| is_part(*c)).take(40).collect();
            if valid_name(&t) && !reserved(&t) {
                t
            } else {
                format!("_{}", t)
            }
        }
        4 => {
            let n = match s.weighted(&[60, 30, 9, 1, 20]) {
                4 => s.near(1, 5_000) as usize,
                0 => s.range(13, 70),
                1 => s.range(100, 300),
                2 => s.range(1_000, 5_000),
                _ => s.range(65_530, 66_000),
            };
            let c = *s.pick(&LETTERS);
            let mut t: String = std::iter::repeat(c).take(n).collect();
            t.push_str(&s.usize(100).to_string());
            t
        }
        0 => s.pick(&["a", "b", "c", "d", "e", "x", "y", "z"]).to_string(),
        1 => s
            .pick(&[
                "_", "__", "_1", "a1", "nulls", "Null", "nul", "tru", "true_", "false1", "_null", "Object", "Ob", "Objs", "Strs",
                "St", "Ar", "Array", "arr", "Tups", "tup", "NULL", "True", "obj", "str", "null1", "Obj_", "trues",
                "A", "B", "C", "X", "Y", "Z", "aa", "ab", "ba", "a_", "_a", "b_", "x1", "x2", "x10", "a0", "a00", "ä", "ａ", "а",
            ])
            .to_string(),
        2 => {
            let n = format!("f{}", s.below(1000));
            n
        }
        _ => {
            let mut n = String::new();
            n.push(*s.pick(&LETTERS));
            for c in s.list(0, 12, |s, _| {
                if s.chance(1, 4) {
                    (b'0' + s.below(10) as u8) as char
                } else {
                    *s.pick(&LETTERS)
                }
            }) {
                n.push(c);
            }
            n
        }
    }
}

pub fn fresh_name(s: &mut Src, used: &dyn Fn(&str) -> bool) -> String {
    let n = gen_name(s);
    if !used(&n) {
        return n;
    }
    let mut i = 0;
    loop {
        let m = format!("{}{}", n, i);
        if !used(&m) && !reserved(&m) {
            return m;
        }
        i = if i < 20 { i + 1 } else { i + 1 + s.usize(100_000) };
    }
}

/// A type without `Any`.
pub fn gen_type(s: &mut Src, depth: usize) -> MT {
    let d = if depth == 0 { 0 } else { 1 };
    match s.weighted(&[10, 6, 8, 6, 2, 3, 8 * d, 8 * d]) {
        0 => MT::Int,
        1 => MT::Str,
        2 => MT::Frac,
        3 => MT::Bool,
        4 => MT::Null,
        5 => MT::Obj,
        6 => MT::Arr(Box::new(gen_type(s, depth - 1))),
        _ => {
            let n = if s.chance(1, 15) { s.length(14) } else { s.usize(4) };
            MT::Tup((0..n).map(|_| gen_type(s, depth - 1)).collect())
        }
    }
}

/// Any type, `Any` included.
pub fn gen_type_any(s: &mut Src, depth: usize) -> MT {
    if s.chance(1, 4) {
        return MT::Any;
    }
    let d = if depth == 0 { 0 } else { 1 };
    match s.weighted(&[10, 6, 8, 6, 2, 3, 14 * d, 14 * d]) {
        0 => MT::Int,
        1 => MT::Str,
        2 => MT::Frac,
        3 => MT::Bool,
        4 => MT::Null,
        5 => MT::Obj,
        6 => MT::Arr(Box::new(gen_type_any(s, depth - 1))),
        _ => {
            let n = s.usize(4);
            MT::Tup((0..n).map(|_| gen_type_any(s, depth - 1)).collect())
        }
    }
}

/// A type which is usually not a basic one.
pub fn gen_type_big(s: &mut Src, depth: usize) -> MT {
    if depth == 0 {
        return gen_type_any(s, 0);
    }
    match s.weighted(&[20, 35, 45]) {
        0 => gen_type_any(s, depth),
        1 => MT::Arr(Box::new(gen_type_big(s, depth - 1))),
        _ => {
            let n = s.usize(4);
            MT::Tup((0..n).map(|_| if s.chance(1, 3) { gen_type_big(s, depth - 1) } else { gen_type_any(s, depth - 1) }).collect())
        }
    }
}

/// Generates values (not documents).
pub struct VG {
    pub budget: i64,
    pub max_depth: usize,
    /// Already generated containers, for sharing.
    pub pool: Vec<MV>,
    /// The next container has this many elements, if not 0.
    pub wide: usize,
}

impl VG {
    pub fn new(s: &mut Src) -> VG {
        let budget = [8, 30, 90, 300][s.weighted(&[50, 30, 15, 5])];
        let wide = s.wide();
        VG { budget, max_depth: 6, pool: vec![], wide }
    }
    fn count(&mut self, s: &mut Src, max: usize) -> usize {
        if self.wide > 0 {
            // Most elements will be simple. There may be another one.
            self.budget = self.budget.min(20);
            let n = std::mem::take(&mut self.wide);
            if s.chance(1, 3) {
                self.wide = n.min(80);
            }
            n
        } else if self.budget > 0 {
            s.length(max)
        } else {
            0
        }
    }
    pub fn value(&mut self, s: &mut Src, depth: usize, want: Option<&MT>) -> MV {
        s.span(|s| self.value_(s, depth, want))
    }
    fn value_(&mut self, s: &mut Src, depth: usize, want: Option<&MT>) -> MV {
        self.budget -= 1;
        let free;
        let t = match want {
            Some(t) => t,
            None => {
                let deep = depth < self.max_depth && self.budget > 0;
                free = match s.weighted(&[8, 10, 10, 8, 6, if deep { 12 } else { 0 }, if deep { 12 } else { 0 }, if deep { 14 } else { 0 }]) {
                    0 => MT::Null,
                    1 => MT::Bool,
                    2 => MT::Int,
                    3 => MT::Frac,
                    4 => MT::Str,
                    5 => {
                        let t = gen_type(s, (self.max_depth - depth).min(3));
                        return self.arr(s, depth, &t);
                    }
                    6 => {
                        let n = self.count(s, 12);
                        let mut v = vec![];
                        for _ in 0..n {
                            v.push(self.value(s, depth + 1, None));
                        }
                        let r = MV::tup(v);
                        self.pool.push(r.clone());
                        return r;
                    }
                    _ => return MV::Obj(self.obj(s, depth)),
                };
                &free
            }
        };
        // Share an instance.
        if !self.pool.is_empty() && s.chance(1, 12) {
            let c: Vec<MV> = self
                .pool
                .iter()
                .filter(|v| (want.is_none() || MT::join(&v.ty(), t).as_ref() == Some(t)) && v.size() < 60 && v.nesting() + depth < 60)
                .cloned()
                .collect();
            if !c.is_empty() {
                let v = s.pick(&c).clone();
                self.budget -= v.size() as i64;
                return v;
            }
        }
        match t {
            MT::Any | MT::Null => MV::Null,
            MT::Bool => MV::Bool(s.bool()),
            MT::Int => MV::Int(gen_int(s)),
            MT::Frac => MV::Frac(gen_frac(s)),
            MT::Str => MV::str(&gen_string(s)),
            MT::Arr(t) => self.arr(s, depth, t),
            MT::Tup(ts) => {
                let v = ts.iter().map(|t| self.value(s, depth + 1, Some(t))).collect();
                let r = MV::tup(v);
                self.pool.push(r.clone());
                r
            }
            MT::Obj => MV::Obj(self.obj(s, depth)),
        }
    }
    fn arr(&mut self, s: &mut Src, depth: usize, t: &MT) -> MV {
        let n = self.count(s, 24);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.value(s, depth + 1, Some(t)));
        }
        let r = MV::arr(v).expect("HARNESS ERROR: array generator");
        self.pool.push(r.clone());
        r
    }
    pub fn obj(&mut self, s: &mut Src, depth: usize) -> Rc<MObj> {
        let deep = depth < self.max_depth && self.budget > 0;
        let parent = if deep && s.chance(1, 5) { Some(self.obj(s, depth + 1)) } else { None };
        let n = self.count(s, 20);
        let mut pairs: Vec<(String, MV)> = vec![];
        for _ in 0..n {
            let p = s.span(|s| {
                let name = fresh_name(s, &|n| pairs.iter().any(|(m, _)| m == n));
                (name, self.value(s, depth + 1, None))
            });
            pairs.push(p);
        }
        let r = Rc::new(MObj { pairs, parent });
        self.pool.push(MV::Obj(r.clone()));
        r
    }
}

// ---------------------------------------------------------------------------------------------
// Documents.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ws {
    /// Nothing may stand before the token.
    Glue,
    /// Whitespace and comments may stand before the token.
    Opt,
    /// Whitespace or a comment must stand before the token.
    Req,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub ws: Ws,
    pub text: String,
}

#[derive(Clone)]
pub struct Inc {
    pub path: String,
    pub kind: &'static str,
    pub val: MV,
    /// How deep the levels read from this file (its own and those of files it includes) go.
    pub levels: usize,
}

/// Files which are always there, in the directory where cases run.
const PANTRY: [(&str, &str); 7] = [
    ("pa", "a: 1 b: \"x\" c: [1 2]"),
    ("pb", "1 2 3 # three"),
    ("pc", "\n\"a\" [] {}\n"),
    ("pd", ""),
    ("pe", "<\"pa\"> <Obj \"./pa\">"),
    ("pan/pf", "u: <\"../pa\"> ^: <\"../pa\">"),
    ("p \"q\\é", "# not\r\na \"comment\\\n"),
];
pub fn write_pantry(dir: &std::path::Path) {
    std::fs::create_dir_all(dir.join("pan")).expect("HARNESS ERROR: pantry");
    for (n, t) in PANTRY.iter() {
        std::fs::write(dir.join(n), t).expect("HARNESS ERROR: pantry");
    }
}
/// Now and then lets a document include some of these.
pub fn with_pantry(s: &mut Src, c: &mut Cfg) {
    if !s.chance(1, 6) {
        return;
    }
    let ints = |v: &[i64]| v.iter().map(|i| MV::int(*i)).collect::<Vec<_>>();
    let arr = |v: Vec<MV>| MV::arr(v).expect("HARNESS ERROR: pantry");
    let pa = MV::obj(vec![("a".into(), MV::int(1)), ("b".into(), MV::str("x")), ("c".into(), arr(ints(&[1, 2])))], None);
    let parent = match &pa {
        MV::Obj(o) => o.clone(),
        _ => unreachable!(),
    };
    let mut v: Vec<(&str, &'static str, MV, usize)> = vec![];
    v.push(("pa", "Obj", pa.clone(), 2));
    v.push(("pb", "Arr", arr(ints(&[1, 2, 3])), 1));
    v.push(("pb", "Tup", MV::tup(ints(&[1, 2, 3])), 1));
    v.push(("pc", "Tup", MV::tup(vec![MV::str("a"), arr(vec![]), MV::obj(vec![], None)]), 2));
    v.push(("pd", "Obj", MV::obj(vec![], None), 1));
    v.push(("pd", "Arr", arr(vec![]), 1));
    v.push(("pd", "Tup", MV::tup(vec![]), 1));
    v.push(("pe", "Arr", arr(vec![pa.clone(), pa.clone()]), 3));
    v.push(("pe", "Tup", MV::tup(vec![pa.clone(), pa.clone()]), 3));
    v.push(("pan/pf", "Obj", MV::Obj(Rc::new(MObj { pairs: vec![("u".into(), pa)], parent: Some(parent) })), 3));
    for (n, t) in PANTRY.iter() {
        v.push((n, "Str", MV::str(t), 1));
    }
    c.includes.extend(v.into_iter().map(|(p, kind, val, levels)| {
        let p = match s.weighted(&[70, 15, 15]) {
            1 => format!("./{}", p),
            2 => format!("pan/../{}", p),
            _ => p.to_string(),
        };
        Inc { path: p, kind, val, levels }
    }));
}

#[derive(Clone)]
pub struct Cfg {
    pub max_depth: usize,
    pub budget: i64,
    /// Weights.
    pub refs: u64,
    pub exprs: u64,
    pub globals: u64,
    pub parents: u64,
    pub includes: Vec<Inc>,
    pub fancy_numbers: bool,
    /// Containers are this much more likely.
    pub containers: u64,
    /// Leave exact resulting nesting to 64 levels.
    pub limit: usize,
    /// The next container below the document has this many elements, if not 0; more than the
    /// documents of most checks have.
    pub wide: usize,
}

impl Cfg {
    pub fn basic(s: &mut Src) -> Cfg {
        let budget = [6, 20, 60, 200][s.weighted(&[45, 35, 16, 4])];
        Cfg {
            max_depth: 6,
            budget,
            refs: 6,
            exprs: 4,
            globals: 3,
            parents: 3,
            includes: vec![],
            fancy_numbers: true,
            containers: 10,
            limit: 64,
            wide: s.wide(),
        }
    }
}

pub struct TG {
    pub c: Cfg,
    pub toks: Vec<Tok>,
    pub globals: Vec<(String, MV)>,
    /// Globals whose value is being generated.
    open: Vec<String>,
    pub budget: i64,
    pub labels: BTreeSet<&'static str>,
    /// Deepest level used by the text itself (includes counted).
    pub levels: usize,
}

pub type Scope = Vec<(String, MV)>;

impl TG {
    pub fn new(c: Cfg) -> TG {
        let budget = c.budget;
        TG { c, toks: vec![], globals: vec![], open: vec![], budget, labels: BTreeSet::new(), levels: 1 }
    }
    fn count(&mut self, s: &mut Src, max: usize) -> usize {
        if self.c.wide > 0 && s.chance(1, 3) {
            self.budget = self.budget.min(20);
            std::mem::take(&mut self.c.wide)
        } else if self.budget > 0 {
            s.length(max)
        } else {
            0
        }
    }
    pub fn push(&mut self, ws: Ws, t: impl Into<String>) {
        self.toks.push(Tok { ws, text: t.into() });
    }

    /// A whole document.
    pub fn doc(&mut self, s: &mut Src) -> Rc<MObj> {
        self.fields(s, 1, false)
    }

    /// The fields of an object at `depth` (the document being 1).
    pub fn fields(&mut self, s: &mut Src, depth: usize, need_parent: bool) -> Rc<MObj> {
        self.levels = self.levels.max(depth);
        let mut scope: Scope = vec![];
        let mut parent: Option<Rc<MObj>> = None;
        let n = self.count(s, 16);
        let n = if depth == 1 { n + 1 } else { n };
        let mut first = true;
        for i in 0..n {
            s.span(|s| {
                let ws = if first { Ws::Opt } else { Ws::Req };
                let can_par = parent.is_none() && depth + 1 < self.c.limit;
                let kind = if need_parent && i == 0 {
                    2
                } else {
                    s.weighted(&[20, self.c.globals, if can_par { self.c.parents } else { 0 }])
                };
                match kind {
                    1 => {
                        let reserved_global = s.chance(1, 10);
                        let (g, open) = (&self.globals, &self.open);
                        let used = |n: &str| g.iter().any(|(m, _)| m == n) || open.iter().any(|m| m == n);
                        let name = if reserved_global {
                            let n = s.pick(&RESERVED).to_string();
                            if used(&n) {
                                fresh_name(s, &used)
                            } else {
                                n
                            }
                        } else {
                            fresh_name(s, &used)
                        };
                        self.push(ws, format!("@{}:", name));
                        self.open.push(name.clone());
                        let v = self.value(s, Ws::Opt, &scope, depth, None);
                        self.open.pop();
                        self.globals.push((name, v));
                        self.labels.insert("global");
                    }
                    2 => {
                        self.push(ws, "^:");
                        let v = self.value(s, Ws::Opt, &scope, depth, Some(&MT::Obj));
                        match v {
                            MV::Obj(o) => parent = Some(o),
                            _ => panic!("HARNESS ERROR: parent is not an object"),
                        }
                        self.labels.insert("parent");
                    }
                    _ => {
                        let name = fresh_name(s, &|n| scope.iter().any(|(m, _)| m == n));
                        self.push(ws, format!("{}:", name));
                        let v = self.value(s, Ws::Opt, &scope, depth, None);
                        scope.push((name, v));
                    }
                }
                first = false;
            });
        }
        Rc::new(MObj { pairs: scope, parent })
    }

    /// A value of the wanted type at an element or field position of a container at `depth`.
    pub fn value(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize, want: Option<&MT>) -> MV {
        s.span(|s| self.value_(s, ws, scope, depth, want))
    }

    fn value_(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize, want: Option<&MT>) -> MV {
        self.budget -= 1;
        let deep = depth < self.c.max_depth && self.budget > 0;
        let cw = if deep { self.c.containers } else { 0 };
        let kind = s.weighted(&[30, self.c.refs, self.c.exprs]);
        if kind == 1 {
            if let Some(v) = self.reference(s, ws, scope, depth, want) {
                return v;
            }
        }
        let free;
        let t = match want {
            Some(t) => t,
            None => {
                free = match s.weighted(&[10, 6, 8, 10, 10, cw, cw, cw]) {
                    0 => MT::Int,
                    1 => MT::Null,
                    2 => MT::Bool,
                    3 => MT::Frac,
                    4 => MT::Str,
                    5 => MT::Arr(Box::new(gen_type(s, (self.c.max_depth - depth).min(3)))),
                    6 => {
                        if kind != 2 {
                            return self.free_tup(s, ws, scope, depth);
                        }
                        let n = s.usize(4);
                        MT::Tup((0..n).map(|_| gen_type(s, 1)).collect())
                    }
                    _ => MT::Obj,
                };
                &free
            }
        };
        if kind == 2 && self.budget > 0 {
            match t {
                MT::Int => return self.int_expr(s, ws, scope, depth),
                MT::Frac => return self.frac_expr(s, ws, scope, depth),
                MT::Str => return self.str_expr(s, ws, scope, depth),
                MT::Arr(e) => return self.arr_expr(s, ws, scope, depth, e),
                _ => {}
            }
        }
        self.operand(s, ws, scope, depth, t)
    }

    fn fits(v: &MV, want: Option<&MT>) -> bool {
        match want {
            None => true,
            Some(t) => MT::join(&v.ty(), t).as_ref() == Some(t),
        }
    }

    /// All paths which name a value from here, with the value.
    pub fn paths(&self, scope: &Scope) -> Vec<(String, MV, &'static str)> {
        let mut out = vec![];
        for (n, v) in scope.iter() {
            self.walk(scope, n.clone(), v, true, 0, "var", &mut out);
        }
        for (n, v) in &self.globals {
            self.walk(scope, format!("@{}", n), v, true, 0, "global_ref", &mut out);
        }
        out
    }
    fn walk(&self, scope: &Scope, p: String, v: &MV, direct: bool, d: usize, l: &'static str, out: &mut Vec<(String, MV, &'static str)>) {
        if out.len() > 120 {
            return;
        }
        out.push((p.clone(), v.clone(), l));
        if d > 5 {
            return;
        }
        let mut index = |vals: &[MV]| {
            for (i, x) in vals.iter().enumerate().take(3).chain(vals.iter().enumerate().skip(3).last()) {
                out.push((format!("{}.{}", p, i), x.clone(), "index"));
                if direct {
                    for (n, v) in scope.iter() {
                        if let MV::Int(k) = v {
                            if *k == BigInt::from(i) {
                                out.push((format!("{}.{}", p, n), x.clone(), "index_by_field"));
                            }
                        }
                    }
                }
                for (n, v) in &self.globals {
                    if let MV::Int(k) = v {
                        if *k == BigInt::from(i) {
                            out.push((format!("{}.@{}", p, n), x.clone(), "index_by_global"));
                        }
                    }
                }
            }
        };
        match v {
            MV::Arr(a) => index(&a.vals),
            MV::Tup(a) => index(a),
            MV::Obj(o) => {
                let mut seen: BTreeSet<&str> = BTreeSet::new();
                let mut cur: Option<&MObj> = Some(o);
                let mut up = 0;
                while let Some(o) = cur {
                    for (n, x) in &o.pairs {
                        if seen.insert(n) {
                            self.walk(scope, format!("{}.{}", p, n), x, false, d + 1, if up > 0 { "inherited_path" } else { "path" }, out);
                        }
                    }
                    cur = o.parent.as_deref();
                    up += 1;
                }
            }
            _ => {}
        }
    }

    fn reference(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize, want: Option<&MT>) -> Option<MV> {
        let b = self.budget.max(0) as u64 + 10;
        let c: Vec<_> = self
            .paths(scope)
            .into_iter()
            .filter(|(_, v, _)| Self::fits(v, want) && v.size() <= b && (v.nesting() == 0 || depth + v.nesting() <= self.c.limit))
            .collect();
        if c.is_empty() {
            return None;
        }
        // Spread the choice over the kinds of paths.
        let kinds: BTreeSet<&'static str> = c.iter().map(|x| x.2).collect();
        let kinds: Vec<_> = kinds.into_iter().collect();
        let k = *s.pick(&kinds);
        let c: Vec<_> = c.into_iter().filter(|x| x.2 == k).collect();
        let (p, v, l) = s.pick(&c).clone();
        self.labels.insert(l);
        self.budget -= v.size() as i64;
        self.levels = self.levels.max(depth + v.nesting());
        self.push(ws, p);
        Some(v)
    }

    fn free_tup(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize) -> MV {
        self.levels = self.levels.max(depth + 1);
        self.push(ws, "(");
        let n = self.count(s, 10);
        let mut v = vec![];
        for i in 0..n {
            v.push(self.value(s, if i == 0 { Ws::Opt } else { Ws::Req }, scope, depth + 1, None));
        }
        self.push(Ws::Opt, ")");
        MV::tup(v)
    }

    /// A value without binary operators.
    pub fn operand(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize, t: &MT) -> MV {
        // An include of this type?
        let inc: Vec<Inc> = self
            .c
            .includes
            .iter()
            .filter(|i| Self::fits(&i.val, Some(t)) && depth + i.levels <= self.c.limit && (i.val.size() as i64) <= self.budget + 10)
            .cloned()
            .collect();
        if !inc.is_empty() && s.chance(1, 2) {
            let i = s.pick(&inc).clone();
            self.include(s, ws, depth, &i);
            self.budget -= i.val.size() as i64;
            return i.val;
        }
        match t {
            MT::Any | MT::Null => {
                self.push(ws, "null");
                MV::Null
            }
            MT::Bool => {
                let b = s.bool();
                self.push(ws, if b { "true" } else { "false" });
                MV::Bool(b)
            }
            MT::Int => self.num(s, ws, false),
            MT::Frac => self.num(s, ws, true),
            MT::Str => {
                let v = gen_string(s);
                let t = quote(s, &v);
                self.push(ws, t);
                MV::str(&v)
            }
            MT::Arr(e) => {
                if depth + 1 > self.c.limit {
                    panic!("HARNESS ERROR: too deep");
                }
                self.levels = self.levels.max(depth + 1);
                self.push(ws, "[");
                let n = self.count(s, 12);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.value(s, if i == 0 { Ws::Opt } else { Ws::Req }, scope, depth + 1, Some(e)));
                }
                self.push(Ws::Opt, "]");
                MV::arr(v).expect("HARNESS ERROR: array text generator")
            }
            MT::Tup(ts) => {
                self.levels = self.levels.max(depth + 1);
                self.push(ws, "(");
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.value(s, if i == 0 { Ws::Opt } else { Ws::Req }, scope, depth + 1, Some(t)));
                }
                self.push(Ws::Opt, ")");
                MV::tup(v)
            }
            MT::Obj => {
                self.push(ws, "{");
                let o = self.fields(s, depth + 1, false);
                self.push(Ws::Opt, "}");
                MV::Obj(o)
            }
        }
    }

    pub fn include(&mut self, s: &mut Src, ws: Ws, depth: usize, i: &Inc) {
        self.levels = self.levels.max(depth + i.levels);
        self.push(ws, "<");
        if i.kind != "Obj" || s.bool() {
            self.push(Ws::Opt, i.kind);
            self.path(s, Ws::Req, &i.path);
        } else {
            self.path(s, Ws::Opt, &i.path);
        }
        self.push(Ws::Opt, ">");
        self.labels.insert("include");
    }

    /// A path: a string or, now and then, a sum of strings.
    fn path(&mut self, s: &mut Src, ws: Ws, path: &str) {
        let n = s.weighted(&[85, 10, 4, 1]);
        let mut left: Vec<char> = path.chars().collect();
        for k in 0..=n {
            let at = if k == n { left.len() } else { s.usize(left.len() + 1) };
            let part: String = left.drain(..at).collect();
            if k > 0 {
                self.push(Ws::Glue, "+");
                self.labels.insert("include by a sum");
            }
            let t = quote(s, &part);
            self.push(if k == 0 { ws } else { Ws::Glue }, t);
        }
    }

    /// A number, perhaps signed.
    fn num(&mut self, s: &mut Src, ws: Ws, frac: bool) -> MV {
        let (text, v) = num_literal(s, frac, self.c.fancy_numbers);
        let mut neg = false;
        let mut signs = String::new();
        let n = s.weighted(&[60, 30, 6, 3, 1]);
        for _ in 0..n {
            if s.bool() {
                neg = !neg;
                signs.push('-');
            } else if s.chance(1, 2) {
                signs.push('+');
            } else {
                neg = !neg;
                signs.push('-');
            }
        }
        if n > 0 {
            self.labels.insert("sign");
        }
        self.push(ws, format!("{}{}", signs, text));
        let v = if neg { -v } else { v };
        if frac {
            MV::Frac(v)
        } else {
            MV::Int(v.to_integer())
        }
    }

    fn num_operand(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize, t: &MT) -> MV {
        self.budget -= 1;
        if s.chance(self.c.refs.min(10), 20) {
            // A reference, perhaps with a sign.
            if s.chance(1, 4) {
                let n = self.toks.len();
                self.push(ws, "-");
                if let Some(v) = self.reference(s, Ws::Glue, scope, depth, Some(t)) {
                    self.labels.insert("sign");
                    return match v {
                        MV::Int(i) => MV::Int(-i),
                        MV::Frac(f) => MV::Frac(-f),
                        _ => panic!("HARNESS ERROR: not a number"),
                    };
                }
                self.toks.truncate(n);
            } else if let Some(v) = self.reference(s, ws, scope, depth, Some(t)) {
                return v;
            }
        }
        self.num(s, ws, *t == MT::Frac)
    }

    fn int_expr(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize) -> MV {
        self.labels.insert("int_expr");
        let mut sum = BigInt::zero();
        let terms = s.range(1, 3);
        let mut plus = true;
        for k in 0..terms {
            if k > 0 {
                plus = !s.bool();
                self.push(Ws::Glue, if plus { "+" } else { "-" });
            }
            let mut prod = as_int(&self.num_operand(s, if k == 0 { ws } else { Ws::Glue }, scope, depth, &MT::Int));
            for _ in 0..s.usize(3) {
                let op = s.bool();
                let n = self.toks.len();
                self.push(Ws::Glue, "*");
                let v = as_int(&self.num_operand(s, Ws::Glue, scope, depth, &MT::Int));
                if op && !v.is_zero() {
                    self.toks[n].text = "%".into();
                    prod = trunc_rem(&prod, &v);
                } else {
                    prod = prod * v;
                }
            }
            if plus {
                sum = sum + prod;
            } else {
                sum = sum - prod;
            }
        }
        MV::Int(sum)
    }

    fn frac_expr(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize) -> MV {
        self.labels.insert("frac_expr");
        let mut sum = BigRational::zero();
        let mut sum_frac = false;
        let terms = s.range(1, 3);
        for k in 0..terms {
            let mut plus = true;
            if k > 0 {
                plus = !s.bool();
                self.push(Ws::Glue, if plus { "+" } else { "-" });
            }
            let t = if s.bool() { MT::Frac } else { MT::Int };
            let v = self.num_operand(s, if k == 0 { ws } else { Ws::Glue }, scope, depth, &t);
            let mut is_frac = t == MT::Frac;
            let mut prod = as_frac(&v);
            for _ in 0..s.usize(3) {
                let op = s.below(3);
                let t = if s.bool() { MT::Frac } else { MT::Int };
                let n = self.toks.len();
                self.push(Ws::Glue, "*");
                let v = self.num_operand(s, Ws::Glue, scope, depth, &t);
                let f = as_frac(&v);
                if op == 1 && !f.is_zero() {
                    self.toks[n].text = "/".into();
                    prod = prod / f;
                    is_frac = true;
                } else if op == 2 && !f.is_zero() && !is_frac && t == MT::Int {
                    self.toks[n].text = "%".into();
                    prod = BigRational::from_integer(trunc_rem(&prod.to_integer(), &f.to_integer()));
                } else {
                    prod = prod * f;
                    is_frac = is_frac || t == MT::Frac;
                }
            }
            if k + 1 == terms && !is_frac && !sum_frac {
                let d = s.range(1, 4);
                self.push(Ws::Glue, "/");
                self.push(Ws::Glue, d.to_string());
                prod = prod / BigRational::from_integer(BigInt::from(d));
                is_frac = true;
            }
            sum_frac = sum_frac || is_frac;
            if plus {
                sum = sum + prod;
            } else {
                sum = sum - prod;
            }
        }
        MV::Frac(sum)
    }

    fn str_expr(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize) -> MV {
        self.labels.insert("str_expr");
        let n = s.range(1, 4);
        let mut out = String::new();
        for i in 0..n {
            let w = if i == 0 { ws } else { Ws::Glue };
            if i > 0 {
                self.push(Ws::Glue, "+");
            }
            self.budget -= 1;
            let v = if s.bool() { self.reference(s, w, scope, depth, Some(&MT::Str)) } else { None };
            let v = match v {
                Some(v) => v,
                None => self.operand(s, w, scope, depth, &MT::Str),
            };
            if let MV::Str(x) = v {
                out.push_str(&x);
            }
        }
        MV::str(&out)
    }

    fn arr_expr(&mut self, s: &mut Src, ws: Ws, scope: &Scope, depth: usize, e: &MT) -> MV {
        self.labels.insert("arr_expr");
        let n = s.range(1, 4);
        let mut out = vec![];
        let mut only = None;
        let t = MT::Arr(Box::new(e.clone()));
        for i in 0..n {
            let w = if i == 0 { ws } else { Ws::Glue };
            if i > 0 {
                self.push(Ws::Glue, "+");
            }
            let v = if s.bool() { self.reference(s, w, scope, depth, Some(&t)) } else { None };
            let v = match v {
                Some(v) => v,
                None => self.operand(s, w, scope, depth, &t),
            };
            if let MV::Arr(a) = &v {
                out.extend(a.vals.iter().cloned());
            }
            only = Some(v);
        }
        if let (1, Some(v)) = (n, only) {
            return v;
        }
        MV::arr(out).expect("HARNESS ERROR: concatenation generator")
    }
}

pub fn as_int(v: &MV) -> BigInt {
    match v {
        MV::Int(i) => i.clone(),
        _ => panic!("HARNESS ERROR: not an Int"),
    }
}
pub fn as_frac(v: &MV) -> BigRational {
    match v {
        MV::Int(i) => BigRational::from_integer(i.clone()),
        MV::Frac(f) => f.clone(),
        _ => panic!("HARNESS ERROR: not a number"),
    }
}

/// Remainder with the sign of the dividend, from magnitudes only.
pub fn trunc_rem(a: &BigInt, b: &BigInt) -> BigInt {
    let (x, y) = (a.abs(), b.abs());
    let q = &x / &y;
    let r = &x - &q * &y;
    if a.is_negative() {
        -r
    } else {
        r
    }
}

/// A literal without a sign, and its value.
pub fn num_literal(s: &mut Src, frac: bool, fancy: bool) -> (String, BigRational) {
    let max = match s.weighted(&[10_000, 300, 8]) {
        0 => 24,
        1 => 300,
        _ => 5_000,
    };
    if !frac {
        let mut d = digits(s, max);
        let v = digits_value(&d);
        if fancy {
            d = decorate(s, &d, true);
        }
        return (d, BigRational::from_integer(v));
    }
    let shape = s.weighted(&[20, 2, 2]);
    let whole = if shape == 1 { String::new() } else { digits(s, max) };
    let dec = if shape == 2 { String::new() } else { digits(s, max) };
    let mark = if s.chance(1, 4) { ',' } else { '.' };
    let v = BigRational::new(digits_value(&format!("{}{}", whole, dec)), pow10(dec.len()));
    let text = format!("{}{}{}", whole, mark, dec);
    let text = if fancy { decorate(s, &text, false) } else { text };
    (text, v)
}

/// Inserts single underscores after digits, and zeros in front.
/// A fragment of the language or, now and then, of what the code mentions.
fn fragment(s: &mut Src) -> String {
    match s.weighted(&[200, 6, 3, 3]) {
        0 => s.pick(&FRAGMENTS).to_string(),
        1 => s.pick(&ALIKE).to_string(),
        2 => s.known_char().to_string(),
        _ => match s.known_string() {
            t if t.is_empty() => "a".into(),
            t => t,
        },
    }
}

/// Characters that look like those of the grammar.
const ALIKE: [char; 44] = [
    '：', '﹕', '︓', ';', '；', '，', '、', '．', '。', '…', '“', '”', '‘', '’', '＂', '＇', '｛', '｝', '［', '］', '（', '）', '＜', '＞', '‹',
    '›', '«', '»', '＠', '＾', '＃', '＋', '－', '−', '–', '×', '÷', '∕', '％', '＼', '＄', '０', '１', '＿',
];

fn decorate(s: &mut Src, text: &str, int: bool) -> String {
    let k = s.weighted(&[70, 20, 10]);
    let mut out = String::new();
    if k == 2 {
        for _ in 0..s.range(1, 4) {
            out.push('0');
        }
        if int || text.starts_with(|c: char| c.is_ascii_digit()) {
        }
    }
    if k >= 1 {
        for c in text.chars() {
            out.push(c);
            if c.is_ascii_digit() && s.chance(1, 4) {
                out.push('_');
            }
        }
        out
    } else {
        text.to_string()
    }
}

/// The string in quotes, each character raw or escaped where both are allowed.
pub fn quote(s: &mut Src, v: &str) -> String {
    let style = s.weighted(&[50, 20, 30]);
    let mut out = String::from("\"");
    for c in v.chars() {
        let esc = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '\'' => Some('\''),
            '$' => Some('$'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        let must = c == '"' || c == '\\';
        match esc {
            Some(e) if must || style == 0 || (style == 2 && s.bool()) => {
                out.push('\\');
                out.push(e);
            }
            _ => out.push(c),
        }
    }
    out.push('"');
    out
}

// ---------------------------------------------------------------------------------------------
// Layout.

pub const WS_CHARS: [&str; 20] = [
    " ", "\n", "\t", "  ", "\r\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2003}", "\u{200a}",
    "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\n\n",
];

fn comment(s: &mut Src) -> String {
    let mut t = String::from("#");
    let body: String = match s.weighted(&[36, 27, 27, 10]) {
        0 => String::new(),
        1 => s.pick(&[" a: 1", "\"", " }", "]", ")", ">", "{[(<", "# #", " x: \"", "\\", "\r", ":", "é😀", "\t", "null", "@g: 1", "\u{2028}b: 2", "\u{85}", "\u{b}c: 3"]).to_string(),
        // As comments begin and end elsewhere.
        3 => s.list(1, 2, |s, _| s.pick(&["[", " ]#", "#", "##", "{", "}#", "|", "|#", "/*", "*/", "!", "=begin", "=end", "<!--", "-->", "--", "if 0", "end", ":", "~"]).to_string()).concat(),
        _ => s.list(0, 12, |s, _| gen_char(s)).into_iter().filter(|c| *c != '\n').collect(),
    };
    t.push_str(&body);
    t
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    /// Nothing where nothing is needed, else one space.
    Minimal,
    /// One space everywhere.
    Spaced,
    /// A newline everywhere.
    Lines,
    CrLf,
    /// Anything, without comments.
    Blank,
    /// Anything.
    Wild,
}
pub const STYLES: [Style; 6] = [Style::Minimal, Style::Spaced, Style::Lines, Style::CrLf, Style::Blank, Style::Wild];

pub fn gap(s: &mut Src, ws: Ws, style: Style) -> String {
    if ws == Ws::Glue {
        return String::new();
    }
    match style {
        Style::Minimal => if ws == Ws::Req { " " } else { "" }.into(),
        Style::Spaced => " ".into(),
        Style::Lines => "\n".into(),
        Style::CrLf => "\r\n".into(),
        Style::Blank | Style::Wild => {
            let n = s.weighted(&[30, 40, 15, 8, 4, 2, 1]);
            let n = if ws == Ws::Req { n.max(1) } else { n };
            let mut g = String::new();
            for _ in 0..n {
                if style == Style::Wild && s.chance(1, 4) {
                    g.push_str(&comment(s));
                    g.push('\n');
                } else if s.chance(1, 2) {
                    g.push_str(s.pick(&WS_CHARS));
                } else {
                    g.push_str(s.pick(&[" ", "\n"]));
                }
            }
            g
        }
    }
}

pub fn pick_style(s: &mut Src) -> Style {
    STYLES[s.weighted(&[25, 15, 15, 5, 15, 25])]
}

pub fn render(s: &mut Src, toks: &[Tok], style: Style) -> String {
    let mut t = String::new();
    for k in toks {
        let g = gap(s, k.ws, style);
        t.push_str(&g);
        t.push_str(&k.text);
    }
    let g = gap(s, Ws::Opt, style);
    t.push_str(&g);
    if style == Style::Wild && s.chance(1, 4) {
        // A comment which ends with the text.
        t.push_str(&comment(s));
    }
    t
}

// ---------------------------------------------------------------------------------------------
// Mutations.

const FRAGMENTS: [&str; 62] = [
    ":", "{", "}", "[", "]", "(", ")", "<", ">", "\"", "'", "@", "^", "^:", "@:", ".", "..", ",", "_", "__", "+", "-", "*", "/",
    "%", "#", "\\", "$", " ", "\n", "\t", "\r", "a", "b:", "x: 1", "@g: 2", "null", "true", "false", "Obj", "Str", "Arr", "Tup",
    "null:", "1", "0", "1.5", ".", "1_0", "é", "漢", "\u{a0}", "\u{feff}", "\0", "\"s\"", "[]", "{}", "()", "a.b", "a.0", "?", ";",
];

/// Breaks (or just changes) a token list.
pub fn mutate_toks(s: &mut Src, toks: &mut Vec<Tok>) -> &'static str {
    if toks.is_empty() {
        toks.push(Tok { ws: Ws::Opt, text: fragment(s) });
        return "insert";
    }
    let i = s.usize(toks.len());
    match s.weighted(&[20, 10, 10, 20, 20, 15, 5]) {
        0 => {
            toks.remove(i);
            "delete"
        }
        1 => {
            let t = toks[i].clone();
            toks.insert(i, t);
            "duplicate"
        }
        2 => {
            let j = s.usize(toks.len());
            toks.swap(i, j);
            "swap"
        }
        3 => {
            let f = fragment(s);
            let ws = *s.pick(&[Ws::Req, Ws::Glue, Ws::Opt]);
            toks.insert(i, Tok { ws, text: f });
            "insert"
        }
        4 => {
            toks[i].text = fragment(s);
            "replace"
        }
        5 => {
            // Change whether whitespace separates the tokens.
            toks[i].ws = if toks[i].ws == Ws::Req { Ws::Glue } else { Ws::Req };
            "space"
        }
        _ => {
            toks.truncate(i);
            "truncate"
        }
    }
}

pub fn mutate_text(s: &mut Src, text: &str) -> (String, &'static str) {
    let cs: Vec<char> = text.chars().collect();
    let i = s.usize(cs.len() + 1);
    let mut out: Vec<char> = cs.clone();
    let l = match s.weighted(&[20, 20, 30, 20, 5]) {
        0 => {
            if i < out.len() {
                out.remove(i);
            }
            "chardelete"
        }
        1 => {
            out.truncate(i);
            "chartruncate"
        }
        2 => {
            let f: Vec<char> = fragment(s).chars().collect();
            for (k, c) in f.into_iter().enumerate() {
                out.insert(i + k, c);
            }
            "charinsert"
        }
        3 => {
            if i < out.len() {
                let f: Vec<char> = fragment(s).chars().collect();
                out[i] = f[0];
            }
            "charreplace"
        }
        _ => {
            if i + 1 < out.len() {
                out.swap(i, i + 1);
            }
            "charswap"
        }
    };
    (out.into_iter().collect(), l)
}

/// Text made of nothing but fragments.
pub fn soup(s: &mut Src, max: usize) -> String {
    s.list(0, max, |s, _| {
        let mut t = match s.weighted(&[96, 14, 2]) {
            0 => fragment(s),
            1 => gen_char(s).to_string(),
            _ => {
                // An include of nothing that is there.
                let p = gen_string(s);
                let p = quote(s, &p);
                format!("<{}{}>", s.pick(&["", "", "Obj ", "Str ", "Arr ", "Tup "]), p)
            }
        };
        if s.chance(1, 3) {
            t.push(' ');
        }
        t
    })
    .concat()
}

// ---------------------------------------------------------------------------------------------
// Plain text of model values, written without the code under test.

pub fn plain(v: &MV) -> String {
    let mut t = String::new();
    plain_to(v, &mut t);
    t
}
pub fn plain_fields(o: &MObj, t: &mut String) {
    if let Some(p) = &o.parent {
        t.push_str("^: ");
        plain_to(&MV::Obj(p.clone()), t);
        t.push('\n');
    }
    for (n, v) in &o.pairs {
        t.push_str(n);
        t.push_str(": ");
        plain_to(v, t);
        t.push('\n');
    }
}
fn plain_to(v: &MV, t: &mut String) {
    let seq = |vs: &[MV], a: char, b: char, t: &mut String| {
        t.push(a);
        for (i, x) in vs.iter().enumerate() {
            if i > 0 {
                t.push(' ');
            }
            plain_to(x, t);
        }
        t.push(b);
    };
    match v {
        MV::Null => t.push_str("null"),
        MV::Bool(b) => t.push_str(if *b { "true" } else { "false" }),
        MV::Int(i) => t.push_str(&i.to_string()),
        MV::Frac(f) => {
            t.push_str(&f.numer().to_string());
            t.push('/');
            t.push_str(&f.denom().to_string());
        }
        MV::Str(s) => {
            t.push('"');
            for c in s.chars() {
                if c == '"' || c == '\\' {
                    t.push('\\');
                }
                t.push(c);
            }
            t.push('"');
        }
        MV::Arr(a) => seq(&a.vals, '[', ']', t),
        MV::Tup(a) => seq(a, '(', ')', t),
        MV::Obj(o) => {
            t.push('{');
            plain_fields(o, t);
            t.push('}');
        }
    }
}
