//! What the source of the code under test mentions: numbers (with simple products, sums, shifts and
//! powers of them), characters, and strings. Generators draw sizes, numbers, characters and names
//! from it (or from beside it) now and then, as fuzzers do with a dictionary taken from the program:
//! limits and special cases lie where the program says so. It decides what is tried, never what is
//! right. Draws are recorded by value, so that replays do not depend on it.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub chars: Vec<char>,
    pub strings: Vec<String>,
}

#[derive(Clone, PartialEq, Debug)]
enum T {
    Num(u64),
    Char(char),
    Str(String),
    Word(String),
    P(char),
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("OVERCHECK_SOURCE").unwrap_or_else(|_| "/repo/src".into());
        let mut files = vec![];
        walk(Path::new(&root), &mut files);
        files.sort();
        let texts: Vec<String> = files.iter().filter_map(|f| std::fs::read(f).ok()).map(|b| String::from_utf8_lossy(&b).into_owned()).collect();
        harvest(&texts)
    })
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") && !p.ends_with("tests.rs") && !p.ends_with("verif.rs") {
            out.push(p);
        }
    }
}

pub fn harvest(texts: &[String]) -> Dict {
    let mut ints = BTreeSet::new();
    let mut chars = BTreeSet::new();
    let mut strings = BTreeSet::new();
    for t in texts {
        let ts = lex(t);
        for (i, t) in ts.iter().enumerate() {
            match t {
                T::Num(n) => {
                    ints.insert(*n);
                    fold(&ts[i..], *n, &mut ints);
                }
                T::Char(c) => {
                    chars.insert(*c);
                    if *c as u64 >= 0x80 {
                        ints.insert(*c as u64);
                    }
                }
                T::Str(s) => {
                    chars.extend(s.chars().filter(|c| !c.is_ascii_alphanumeric()));
                    if s.chars().count() <= 60 {
                        strings.insert(s.clone());
                    }
                }
                T::Word(w) => {
                    let b: u32 = match w.as_str() {
                        "u8" | "i8" => 8,
                        "u16" | "i16" => 16,
                        "u32" | "i32" | "f32" => 32,
                        "f64" => 53,
                        "u64" | "i64" | "usize" | "isize" => 63,
                        _ => continue,
                    };
                    ints.insert(1 << b);
                    ints.insert(1 << (b - 1));
                }
                T::P(_) => {}
            }
        }
    }
    Dict {
        ints: ints.into_iter().filter(|n| *n > 8).collect(),
        chars: chars.into_iter().filter(|c| !crate::gen::SPECIALS.contains(c)).collect(),
        strings: strings.into_iter().filter(|s| !s.is_empty()).collect(),
    }
}

/// Values of the simple expressions starting with the number `n`.
fn fold(ts: &[T], n: u64, out: &mut BTreeSet<u64>) {
    let mut acc = n;
    let mut i = 1;
    loop {
        let (v, used) = match &ts[i..] {
            [T::P('<'), T::P('<'), T::Num(m), ..] if *m < 64 => (acc.checked_shl(*m as u32), 3),
            [T::P('*'), T::Num(m), ..] => (acc.checked_mul(*m), 2),
            [T::P('+'), T::Num(m), ..] => (acc.checked_add(*m), 2),
            [T::P('-'), T::Num(m), ..] => (acc.checked_sub(*m), 2),
            [T::P('.'), T::Word(w), T::P('('), T::Num(m), T::P(')'), ..] if w == "pow" => (acc.checked_pow(*m as u32), 5),
            _ => return,
        };
        match v {
            Some(v) => {
                out.insert(v);
                acc = v;
            }
            None => return,
        }
        i += used;
    }
}

fn lex(t: &str) -> Vec<T> {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x.is_ascii_digit() {
            let start = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            if let Some(n) = number(&c[start..i].iter().collect::<String>()) {
                out.push(T::Num(n));
            }
        } else if x == '"' {
            let (s, j) = string(&c, i + 1);
            out.push(T::Str(s));
            i = j;
        } else if x == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) {
            let mut h = 0;
            i += 1;
            while at(i) == '#' {
                h += 1;
                i += 1;
            }
            i += 1;
            let start = i;
            while i < c.len() && !(c[i] == '"' && (1..=h).all(|k| at(i + k) == '#')) {
                i += 1;
            }
            out.push(T::Str(c[start..i.min(c.len())].iter().collect()));
            i += 1 + h;
        } else if x == '\'' {
            if at(i + 1) == '\\' {
                let (e, j) = escape(&c, i + 1);
                out.extend(e.map(T::Char));
                i = j + 1;
            } else if at(i + 2) == '\'' {
                out.push(T::Char(at(i + 1)));
                i += 3;
            } else {
                i += 1;
            }
        } else if x.is_alphabetic() || x == '_' {
            let start = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            out.push(T::Word(c[start..i].iter().collect()));
        } else {
            out.push(T::P(x));
            i += 1;
        }
    }
    out
}

fn string(c: &[char], mut i: usize) -> (String, usize) {
    let mut s = String::new();
    while i < c.len() && c[i] != '"' {
        if c[i] == '\\' {
            if c.get(i + 1) == Some(&'\n') {
                i += 2;
                while i < c.len() && c[i].is_whitespace() {
                    i += 1;
                }
                continue;
            }
            let (e, j) = escape(c, i);
            s.extend(e);
            i = j;
        } else {
            s.push(c[i]);
            i += 1;
        }
    }
    (s, i + 1)
}

/// The escape starting at `c[i]`, and where it ends.
fn escape(c: &[char], i: usize) -> (Option<char>, usize) {
    let hex = |s: &[char]| u32::from_str_radix(&s.iter().filter(|c| **c != '_').collect::<String>(), 16).ok().and_then(char::from_u32);
    match c.get(i + 1) {
        Some('n') => (Some('\n'), i + 2),
        Some('r') => (Some('\r'), i + 2),
        Some('t') => (Some('\t'), i + 2),
        Some('0') => (Some('\0'), i + 2),
        Some('x') => (c.get(i + 2..i + 4).and_then(hex), i + 4),
        Some('u') => {
            let end = (i + 2..c.len()).find(|k| c[*k] == '}').unwrap_or(c.len());
            (c.get(i + 3..end).and_then(hex), end + 1)
        }
        Some(x) => (Some(*x), i + 2),
        None => (None, i + 2),
    }
}

fn number(t: &str) -> Option<u64> {
    let mut t = t.replace('_', "");
    for suffix in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
        if let Some(s) = t.strip_suffix(suffix) {
            t = s.to_string();
            break;
        }
    }
    if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = t.strip_prefix("0b") {
        u64::from_str_radix(b, 2).ok()
    } else if let Some((m, e)) = t.split_once('e') {
        m.parse::<u64>().ok()?.checked_mul(10u64.checked_pow(e.parse().ok()?)?)
    } else {
        t.parse().ok()
    }
}
