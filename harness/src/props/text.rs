//! Properties of the text format: literals, expressions, names, dots, errors, grammar, layout.

use super::files::fresh_dir;
use super::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{ToPrimitive, Zero};
use over::value::Value;
use std::collections::BTreeSet;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            level: "exploration",
            rule: "literals are digit strings of 1 to 600 digits with leading zeros, trailing zeros, underscores, either decimal mark, and missing parts, written in every kind of place and followed by every kind of value end; broken ones have one foreign character, mark or underscore too many, or no digit. Non-trivial: the literal has more than one character and is not the plain form of its value, or is broken",
            assumptions: vec![PURE],
            subs: vec![
                sub("int", 2_000_000, 40_000_000, c03_int),
                sub("frac", 2_000_000, 40_000_000, c03_frac),
                sub("long", 10_000, 200_000, c03_long),
                sub("broken", 2_000_000, 40_000_000, c03_broken),
            ],
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "an expression is 1 to 40 operands (in one check up to 3,000) (numbers, strings, arrays, other values, references to earlier fields, each with up to 4 signs) joined by random operators, in a field, array or tuple; the expected value is computed by grouping into terms first. Non-trivial: at least two operators, or a sign run of two, or operands of different types",
            assumptions: vec![PURE],
            subs: vec![
                sub("numbers", 1_100_000, 22_000_000, c04_numbers),
                sub("mixed", 1_900_000, 38_000_000, c04_mixed),
                sub("document", 170_000, 3_400_000, c04_doc),
                sub("long", 3_000, 60_000, c04_long),
                sub("signs", 4_000, 80_000, c04_signs),
            ],
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "strings of 0 to 600 characters (long ones to 70000, by pieces placed around multiples of powers of two) from all of Unicode with specials over-represented, each character written raw or escaped where both are allowed; broken ones have one other escape or no closing quote. Non-trivial: the string has a character that is not a letter, or is broken",
            assumptions: vec![PURE],
            subs: vec![
                sub("strings", 2_000_000, 40_000_000, c05_ok),
                sub("chars", 2_000_000, 40_000_000, c05_chars),
                sub("broken", 2_000_000, 40_000_000, c05_broken),
                sub("long", 16_000, 320_000, c05_long),
            ],
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "nested documents over five names and four global names with values, references and globals at random, evaluated by a scoping interpreter that knows nothing of text; some redefine or use unknown, outer, later or inherited names. Non-trivial: at least two references, or rejected",
            assumptions: vec![PURE],
            subs: vec![
                sub("scopes", 2_000_000, 40_000_000, c06_scopes),
                sub("document", 680_000, 13_600_000, c06_doc),
                sub("files", 90_000, 1_800_000, c06_files),
                sub("many", 20_000, 400_000, c06_many),
            ],
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "a generated document whose last field is a path: one that exists (through own and inherited fields, ending in a literal index in any spelling, or a global or field index), or one with a single fault of a listed kind. Non-trivial: the path has at least two parts",
            assumptions: vec![PURE],
            subs: vec![
                sub("paths", 370_000, 7_400_000, c08_paths),
                sub("faults", 410_000, 8_200_000, c08_faults),
                sub("deep", 150_000, 3_000_000, c08_deep),
            ],
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "generated documents in random layouts (comments, blank lines, multi-line strings, tabs, multi-byte characters) with one fault inserted by mutating tokens or characters; the place is known from the reference reader or from the insertion itself. Non-trivial: rejected, and the fault is not on line 1 or not in the first ten columns",
            assumptions: vec![PURE],
            subs: vec![
                sub("mutated", 530_000, 10_600_000, c13_mutated),
                sub("planted", 470_000, 9_400_000, c13_planted),
                sub("files", 160_000, 3_200_000, c13_files),
            ],
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "generated documents, unchanged or with one to three token or character mutations, and token soup, each read by the parser and by the reference reader. Non-trivial: the text has at least three tokens (12 characters) and is a mutated one",
            assumptions: vec![PURE],
            subs: vec![
                sub("valid", 290_000, 5_800_000, c14_valid),
                sub("mutated", 400_000, 8_000_000, c14_mutated),
                sub("soup", 2_000_000, 40_000_000, c14_soup),
                sub("truncated", 180_000, 3_600_000, c14_truncated),
            ],
        },
        Prop {
            id: "C16",
            level: "exploration",
            rule: "the same tokens (a generated document, or one with a token mutated) written in two layouts drawn from minimal, spaced, lines, CRLF, arbitrary whitespace, and arbitrary whitespace with comments; or one gap of up to 100,000 characters. Non-trivial: the two texts differ and one of them has a comment or a whitespace character other than a blank",
            assumptions: vec![PURE],
            subs: vec![
                sub("valid", 270_000, 5_400_000, c16_valid),
                sub("mutated", 550_000, 11_000_000, c16_mutated),
                sub("single", 2_000_000, 40_000_000, c16_single),
                sub("long", 60_000, 1_200_000, c16_long),
            ],
        },
    ]
}

// --------------------------------------------------------------------------------------------- C03

/// Puts a value's text somewhere in a document. Gives the text and how to get the value.
fn place(s: &mut Src, text: &str) -> (String, usize) {
    let after = *s.pick(&["", "\n", " ", "\t", "#c", "\r\n", "\u{a0}", " # c\nb: 2"]);
    match s.weighted(&[50, 20, 20, 10]) {
        0 => (format!("x: {}{}", text, after), 0),
        1 => {
            let pad = *s.pick(&["", " ", "\n", "#c\n"]);
            (format!("x: [{}{}]{}", text, pad, after), 1)
        }
        2 => {
            let pad = *s.pick(&["", " ", "\n", "#c\n"]);
            (format!("x: ({}{}){}", text, pad, after), 2)
        }
        _ => {
            let pad = *s.pick(&["", " ", "\n", "#c\n"]);
            (format!("x:{{y:{}{}}}{}", text, pad, after), 3)
        }
    }
}
fn fetch(o: &Obj, how: usize) -> Result<Value, String> {
    let v = o.get("x").ok_or("field x is missing")?;
    Ok(match (how, &v) {
        (0, _) => v,
        (1, Value::Arr(a)) => a.get(0).map_err(|e| e.to_string())?,
        (2, Value::Tup(t)) => t.get(0).map_err(|e| e.to_string())?,
        (3, Value::Obj(o)) => o.get("y").ok_or("field y is missing")?,
        _ => return Err(format!("unexpected {}", show_val(&v))),
    })
}

fn is_plain(t: &str) -> bool {
    t.len() < 2
}

fn c03_int(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, v) = num_literal_wild(s, false);
    let (text, how) = place(s, &t);
    ctx.input = text.clone();
    ctx.nontrivial = !is_plain(&t) && v.to_string() != t;
    ctx.label_if(t.contains('_'), "underscore");
    ctx.label_if(t.len() > 19, "long");
    ctx.label_if(t.starts_with('0') && t.len() > 1, "leading zero");
    let o = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    cmp_val(&MV::Int(v.to_integer()), &fetch(&o, how)?)
}

fn num_literal_wild(s: &mut Src, frac: bool) -> (String, BigRational) {
    let max = if s.chance(1, 20) { 600 } else { 40 };
    let zeros = |s: &mut Src| -> String {
        let n = s.weighted(&[70, 10, 8, 6, 4, 2]);
        "0".repeat(if n == 5 { s.range(5, 80) } else { n })
    };
    let mut whole = format!("{}{}", zeros(s), digits(s, max));
    let mut dec = String::new();
    let mut mark = String::new();
    if frac {
        dec = format!("{}{}{}", zeros(s), digits(s, max), zeros(s));
        match s.weighted(&[70, 15, 15]) {
            1 => whole.clear(),
            2 => dec.clear(),
            _ => {}
        }
        mark.push(if s.chance(1, 3) { ',' } else { '.' });
    }
    let v = BigRational::new(digits_value(&format!("{}{}", whole, dec)), pow10(dec.len()));
    let every = s.weighted(&[60, 20, 20]);
    let under = |s: &mut Src, t: &str| -> String {
        let mut o = String::new();
        for c in t.chars() {
            o.push(c);
            if every == 1 || (every == 2 && s.chance(1, 4)) {
                o.push('_');
            }
        }
        o
    };
    let w = under(s, &whole);
    let d = under(s, &dec);
    (format!("{}{}{}", w, mark, d), v)
}

fn c03_frac(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (t, v) = num_literal_wild(s, true);
    let (text, how) = place(s, &t);
    ctx.input = text.clone();
    ctx.nontrivial = true;
    ctx.label_if(t.contains('_'), "underscore");
    ctx.label_if(t.contains(','), "comma");
    ctx.label_if(t.starts_with(|c| c == '.' || c == ','), "no whole part");
    ctx.label_if(t.ends_with(|c| c == '.' || c == ','), "no fractional part");
    ctx.label_if(t.ends_with('0'), "trailing zero");
    ctx.label_if(v.is_integer(), "integral");
    let o = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    cmp_val(&MV::Frac(v), &fetch(&o, how)?)
}

/// Literals of thousands of digits.
fn c03_long(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut part = |s: &mut Src| -> String {
        let zeros = if s.chance(1, 4) { s.near(1, 400) as usize } else { 0 };
        let n = match s.weighted(&[30, 20, 20, 30]) {
            0 => s.range(1, 40),
            1 => s.range(100, 1_200),
            2 => s.range(1_000, 6_000),
            _ => s.near(9, 8_000) as usize,
        };
        let k = s.below(4);
        (0..zeros)
            .map(|_| '0')
            .chain((0..n).map(|i| match k {
                0 => (b'0' + s.below(10) as u8) as char,
                1 => '9',
                2 if i == 0 || i + 1 == n => '1',
                2 => '0',
                _ => (b'1' + (i % 9) as u8) as char,
            }))
            .collect()
    };
    let frac = s.chance(2, 3);
    let whole = part(s);
    let dec = if frac { part(s) } else { String::new() };
    let v = BigRational::new(digits_value(&format!("{}{}", whole, dec)), pow10(dec.len()));
    let t = if frac { format!("{}{}{}", whole, s.pick(&['.', ',']), dec) } else { whole.clone() };
    let (text, how) = place(s, &t);
    ctx.input = text.clone();
    ctx.nontrivial = t.len() > 100;
    ctx.label_if(dec.len() > 1_000, "over 1000 decimals");
    ctx.label_if(whole.len() > 1_000, "over 1000 digits before the mark");
    let o = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    let want = if frac { MV::Frac(v) } else { MV::Int(v.to_integer()) };
    cmp_val(&want, &fetch(&o, how)?)
}

fn c03_broken(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let frac = s.bool();
    let (mut t, _) = num_literal_wild(s, frac);
    let n = t.chars().count();
    let ins = |t: &str, i: usize, x: &str| -> String {
        t.chars().take(i).collect::<String>() + x + &t.chars().skip(i).collect::<String>()
    };
    let l = match s.weighted(&[45, 15, 20, 20]) {
        0 => {
            let c = loop {
                let c = match s.below(3) {
                    0 => *s.pick(&['a', 'e', 'E', 'x', 'b', 'f', 'n', 'L', '\'', '"', ':', '@', '^', '$', '!', '=', '&', '~', '`', ';', '\\', '|', '?']),
                    1 => *s.pick(&['٣', '５', '²', '½', 'Ⅷ', '０', '९', '𝟗', '\u{ff0e}', '\u{66b}', '\u{200b}', '\u{feff}', '\0', 'é', '漢']),
                    _ => gen_char(s),
                };
                if !(c.is_whitespace() || "#+-*/%()[]{}<>_.,".contains(c) || c.is_ascii_digit()) {
                    break c;
                }
                break 'x';
            };
            let i = s.range(0, n);
            t = ins(&t, i, &c.to_string());
            "foreign character"
        }
        1 => {
            t = s.pick(&[".", ",", "._", ",_", "_.", ".__", "..", ",,", ".,", "-.", "+,", "--."]).to_string();
            "no digits"
        }
        2 => {
            if frac {
                let i = s.range(0, n);
                t = ins(&t, i, s.pick(&[".", ","]));
            } else {
                let i = s.range(0, n);
                t = ins(&t, i, "..");
            }
            "second mark"
        }
        _ => {
            let i = s.range(1, n);
            t = ins(&t, i, "__");
            "two underscores"
        }
    };
    ctx.label(l);
    let (text, _) = place(s, &t);
    ctx.input = text.clone();
    ctx.nontrivial = true;
    match parse(&text)? {
        Err(_) => Ok(()),
        Ok(o) => Err(format!("{} accepted as {}", l, show_mv(&MV::Obj(reify_obj(&o))))),
    }
}

// --------------------------------------------------------------------------------------------- C04

/// The value of `v0 op0 v1 op1 …` by the documented rules: terms first, then their sum.
pub fn eval_flat(vals: &[MV], ops: &[char]) -> Option<MV> {
    let mut terms: Vec<(char, MV)> = vec![];
    let mut cur = vals[0].clone();
    let mut sign = '+';
    for (i, op) in ops.iter().enumerate() {
        match op {
            '+' | '-' => {
                terms.push((sign, cur));
                sign = *op;
                cur = vals[i + 1].clone();
            }
            _ => cur = apply2(&cur, *op, &vals[i + 1])?,
        }
    }
    terms.push((sign, cur));
    let mut it = terms.into_iter();
    let mut acc = it.next().unwrap().1;
    for (op, v) in it {
        acc = apply2(&acc, op, &v)?;
    }
    Some(acc)
}

fn apply2(a: &MV, op: char, b: &MV) -> Option<MV> {
    if let (MV::Int(x), MV::Int(y)) = (a, b) {
        return match op {
            '+' => Some(MV::Int(x + y)),
            '-' => Some(MV::Int(x - y)),
            '*' => Some(MV::Int(x * y)),
            '/' if y.is_zero() => None,
            '/' => Some(MV::Frac(BigRational::new(x.clone(), y.clone()))),
            _ if y.is_zero() => None,
            _ => Some(MV::Int(trunc_rem(x, y))),
        };
    }
    match (a, b) {
        (MV::Int(_) | MV::Frac(_), MV::Int(_) | MV::Frac(_)) => {
            let (x, y) = (as_frac(a), as_frac(b));
            // Cross-multiplication on numerators and denominators.
            let (xn, xd, yn, yd) = (x.numer(), x.denom(), y.numer(), y.denom());
            match op {
                '+' => Some(MV::Frac(BigRational::new(xn * yd + yn * xd, xd * yd))),
                '-' => Some(MV::Frac(BigRational::new(xn * yd - yn * xd, xd * yd))),
                '*' => Some(MV::Frac(BigRational::new(xn * yn, xd * yd))),
                '/' if yn.is_zero() => None,
                '/' => Some(MV::Frac(BigRational::new(xn * yd, xd * yn))),
                _ => None,
            }
        }
        (MV::Str(x), MV::Str(y)) if op == '+' => Some(MV::str(&format!("{}{}", x, y))),
        (MV::Arr(x), MV::Arr(y)) if op == '+' => MV::arr(x.vals.iter().chain(&y.vals).cloned().collect()),
        _ => None,
    }
}

struct Flat {
    text: String,
    vals: Vec<MV>,
    ops: Vec<char>,
    bad_sign: bool,
    signs: bool,
}

/// A flat expression. `pre` are fields it can refer to.
fn flat(s: &mut Src, mixed: bool, pre: &[(String, MV)]) -> Flat {
    let n = 1 + s.size(40);
    let mut f = Flat { text: String::new(), vals: vec![], ops: vec![], bad_sign: false, signs: false };
    // Small numbers make equal results of different groupings unlikely enough and long products cheap.
    let int_bias = s.below(3);
    let main = s.weighted(&[40, 25, 35]);
    for i in 0..n {
        s.span(|s| {
            if i > 0 {
                let op = if mixed && s.chance(2, 3) { '+' } else { *s.pick(&['+', '-', '*', '/', '%']) };
                f.ops.push(op);
                f.text.push(op);
            }
            let mut neg = false;
            let mut signs = 0;
            for _ in 0..s.weighted(&[75, 17, 5, 2, 1]) {
                signs += 1;
                if s.bool() {
                    neg = !neg;
                    f.text.push('-');
                } else {
                    f.text.push('+');
                }
            }
            f.signs |= signs > 1;
            let kind = if !mixed {
                if s.chance(int_bias + 1, 4) {
                    0
                } else {
                    1
                }
            } else if s.chance(9, 10) {
                [0, 2, 3][main]
            } else {
                s.weighted(&[10, 5, 10, 10, 15])
            };
            let cand: Vec<&(String, MV)> = pre
                .iter()
                .filter(|(_, v)| match (kind, v) {
                    (0, MV::Int(_)) | (1, MV::Frac(_)) | (2, MV::Str(_)) | (3, MV::Arr(_)) => true,
                    (4, MV::Null) | (4, MV::Bool(_)) | (4, MV::Obj(_)) | (4, MV::Tup(_)) => true,
                    _ => false,
                })
                .collect();
            let v = if !cand.is_empty() && s.chance(1, 5) {
                let c = *s.pick(&cand);
                f.text.push_str(&c.0);
                c.1.clone()
            } else {
                match kind {
                    0 | 1 => {
                        if s.chance(5, 6) {
                            let x = if s.chance(1, 8) { 0 } else { s.range(1, 12) };
                            if kind == 0 {
                                f.text.push_str(&x.to_string());
                                MV::int(x)
                            } else {
                                let d = s.usize(100);
                                f.text.push_str(&format!("{}.{:02}", x, d));
                                MV::Frac(BigRational::new(BigInt::from(x * 100 + d), BigInt::from(100)))
                            }
                        } else {
                            let (t, v) = num_literal(s, kind == 1, true);
                            f.text.push_str(&t);
                            if kind == 1 {
                                MV::Frac(v)
                            } else {
                                MV::Int(v.to_integer())
                            }
                        }
                    }
                    2 => {
                        let x = gen_string(s);
                        let q = quote(s, &x);
                        f.text.push_str(&q);
                        MV::str(&x)
                    }
                    3 => {
                        let k = s.length(4);
                        let t = s.below(5);
                        let mut vals = vec![];
                        f.text.push('[');
                        for j in 0..k {
                            if j > 0 {
                                f.text.push(' ');
                            }
                            match t {
                                0 | 1 => {
                                    let x = s.usize(10);
                                    f.text.push_str(&x.to_string());
                                    vals.push(MV::int(x));
                                }
                                2 => {
                                    f.text.push_str("\"s\"");
                                    vals.push(MV::str("s"));
                                }
                                3 => {
                                    f.text.push_str("[]");
                                    vals.push(MV::arr(vec![]).unwrap());
                                }
                                _ => {
                                    f.text.push_str("[7]");
                                    vals.push(MV::arr(vec![MV::int(7)]).unwrap());
                                }
                            }
                        }
                        f.text.push(']');
                        MV::arr(vals).unwrap()
                    }
                    _ => {
                        let (t, v) = match s.below(4) {
                            0 => ("null", MV::Null),
                            1 => ("true", MV::Bool(true)),
                            2 => ("{}", MV::obj(vec![], None)),
                            _ => ("(1)", MV::tup(vec![MV::int(1)])),
                        };
                        f.text.push_str(t);
                        v
                    }
                }
            };
            let v = if signs > 0 {
                match v {
                    MV::Int(i) => MV::Int(if neg { -i } else { i }),
                    MV::Frac(x) => MV::Frac(if neg { -x } else { x }),
                    v => {
                        f.bad_sign = true;
                        v
                    }
                }
            } else {
                v
            };
            f.vals.push(v);
        });
    }
    f
}

fn c04_check(s: &mut Src, ctx: &mut Ctx, mixed: bool) -> CaseResult {
    // Fields to refer to.
    let mut pre: Vec<(String, MV)> = vec![];
    let mut head = String::new();
    if s.chance(1, 3) {
        let mut add = |n: &str, t: &str, v: MV| {
            head.push_str(&format!("{}: {}\n", n, t));
            pre.push((n.to_string(), v));
        };
        let k = s.below(20);
        add("i", &format!("-{}", k), MV::Int(-BigInt::from(k)));
        add("f", "2.50", MV::Frac(BigRational::new(5.into(), 2.into())));
        add("s", "\"é\"", MV::str("é"));
        add("a", "[3]", MV::arr(vec![MV::int(3)]).unwrap());
        add("@i", "7", MV::int(7));
        add("n", "null", MV::Null);
    }
    let f = flat(s, mixed, &pre);
    let want = if f.bad_sign { None } else { eval_flat(&f.vals, &f.ops) };
    let (text, how) = place(s, &f.text);
    // Fields are visible in their own object only.
    let text = if how == 3 { text.replacen('{', &format!("{{{}", head), 1) } else { format!("{}{}", head, text) };
    ctx.input = text.clone();
    ctx.nontrivial = f.ops.len() >= 2 || f.signs || (f.ops.len() == 1 && f.vals[0].ty() != f.vals[1].ty());
    ctx.label_if(f.ops.len() >= 2, "several operators");
    ctx.label_if(f.ops.iter().any(|o| "*/%".contains(*o)) && f.ops.iter().any(|o| "+-".contains(*o)), "both precedences");
    match (want, parse(&text)?) {
        (Some(v), Ok(o)) => {
            ctx.label("accepted");
            cmp_val(&v, &fetch(&o, how)?)
        }
        (None, Err(_)) => {
            ctx.label("rejected");
            Ok(())
        }
        (Some(v), Err(e)) => Err(format!("should be {}, but is rejected: {}", show_mv(&v), e)),
        (None, Ok(o)) => Err(format!("should be rejected, but is {}", show_val(&fetch(&o, how)?))),
    }
}
fn c04_numbers(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c04_check(s, ctx, false)
}
fn c04_mixed(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c04_check(s, ctx, true)
}
fn c04_doc(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    c.exprs = 60;
    c.budget += 20;
    with_pantry(s, &mut c);
    let (text, m, g) = gen_doc(s, ctx, c, None);
    self_check(&text, &m)?;
    ctx.nontrivial = g.labels.iter().any(|l| l.ends_with("_expr"));
    let o = parse(&text)?.map_err(|e| format!("a well-formed document is rejected: {}", e))?;
    cmp_obj(&m, &o)
}

/// Expressions of very many terms.
/// A run of signs before a number, alone or as an operand.
fn c04_signs(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.below(4) {
        0 => s.near(3, 70_000) as usize,
        1 => (1usize << s.range(3, 16)) + s.usize(5) - 2,
        2 => s.range(9, 600),
        _ => s.range(1, 3000),
    };
    let minus = s.below(101);
    let mut seed = s.bits() | 1;
    let signs: String = (0..n)
        .map(|_| {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            if (seed >> 11) % 100 < minus { '-' } else { '+' }
        })
        .collect();
    let odd = signs.matches('-').count() % 2 == 1;
    let (x, y) = (s.below(1000) as i64 + 1, s.below(1000) as i64 + 1);
    let frac = s.bool();
    let num = |v: i64| if frac { MV::Frac(BigRational::new((2 * v + 1).into(), 2.into())) } else { MV::int(v) };
    let word = |v: i64| if frac { format!("{}.5", v) } else { v.to_string() };
    let signed = |m: MV| match m {
        MV::Int(i) if odd => MV::Int(-i),
        MV::Frac(f) if odd => MV::Frac(-f),
        m => m,
    };
    let (text, want) = match s.below(3) {
        0 => (format!("{}{}", signs, word(x)), Some(signed(num(x)))),
        1 => (format!("{}*{}{}", word(y), signs, word(x)), eval_flat(&[num(y), signed(num(x))], &['*'])),
        _ => (format!("{}{}+{}", signs, word(x), word(y)), eval_flat(&[signed(num(x)), num(y)], &['+'])),
    };
    let want = want.ok_or_else(|| format!("{}no value", HARNESS))?;
    let (text, how) = place(s, &text);
    ctx.input = format!("{} signs: {}", n, text);
    publish_input(&ctx.input);
    ctx.nontrivial = n > 1;
    let o = parse(&text)?.map_err(|e| format!("should be {}, but is rejected: {}", show_mv(&want), e))?;
    cmp_val(&want, &fetch(&o, how)?)
}

fn c04_long(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.below(4) {
        0 => s.near(9, 3000) as usize,
        1 => (1usize << s.range(4, 11)) + s.usize(5) - 2,
        2 => s.range(9, 400),
        _ => s.range(9, 3000),
    };
    let kind = s.weighted(&[35, 25, 15, 10, 10, 5]);
    let frees = s.below(100);
    let mut seed = s.bits() | 1;
    let mut next = |n: u64| {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 11) % n
    };
    let mut text = String::new();
    let (mut vals, mut ops) = (vec![], vec![]);
    let mut run = 0;
    for i in 0..n {
        if i > 0 {
            let free = next(100) < frees;
            let op = match kind {
                2 | 3 => '+',
                4 => ['*', '/'][next(2) as usize],
                _ if free && run < 4 => ['+', '-', '*', '/', '%'][next(if kind == 0 { 5 } else { 4 }) as usize],
                _ => ['+', '-'][next(2) as usize],
            };
            // Remainders are of integers.
            let op = if op == '%' && ops.last() == Some(&'/') { '-' } else { op };
            run = if "*/%".contains(op) { run + 1 } else { 0 };
            ops.push(op);
            text.push(op);
        }
        let x = next(9) as i64 + 1;
        let neg = next(8) == 0;
        let sign = if neg && kind != 2 && kind != 3 { "-" } else { "" };
        let y = if sign.is_empty() { x } else { -x };
        match kind {
            1 => {
                let d = next(4);
                text.push_str(&format!("{}{}.{}", sign, x, [0, 5, 25, 125][d as usize]));
                let part = BigRational::new([0, 500, 250, 125][d as usize].into(), 1000.into());
                let v = BigRational::from_integer(x.into()) + part;
                vals.push(MV::Frac(if sign.is_empty() { v } else { -v }));
            }
            2 => {
                text.push_str(&format!("\"{}\"", x));
                vals.push(MV::str(&x.to_string()));
            }
            3 => {
                text.push_str(&format!("[{}]", x));
                vals.push(MV::arr(vec![MV::int(x)]).unwrap());
            }
            5 if next(2) == 0 => {
                text.push_str(&format!("{}{}.5", sign, x));
                let v = BigRational::new((2 * x + 1).into(), 2.into());
                vals.push(MV::Frac(if sign.is_empty() { v } else { -v }));
            }
            _ => {
                text.push_str(&y.to_string());
                vals.push(MV::int(y));
            }
        }
    }
    // A remainder behind a quotient somewhere in the same term is refused.
    let want = eval_flat(&vals, &ops);
    let (text, how) = place(s, &text);
    ctx.input = format!("{} terms: {}", n, text);
    publish_input(&ctx.input);
    ctx.nontrivial = true;
    ctx.label(["integers", "fractions", "strings", "arrays", "products", "mixed"][kind]);
    match (want, parse(&text)?) {
        (Some(v), Ok(o)) => {
            ctx.label("accepted");
            cmp_val(&v, &fetch(&o, how)?)
        }
        (None, Err(_)) => {
            ctx.label("rejected");
            Ok(())
        }
        (Some(v), Err(e)) => Err(format!("should be {}, but is rejected: {}", show_mv(&v), e)),
        (None, Ok(o)) => Err(format!("should be rejected, but is {}", show_val(&fetch(&o, how)?))),
    }
}

// --------------------------------------------------------------------------------------------- C05

fn c05_ok(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = gen_string(s);
    let q = quote(s, &v);
    let w = gen_string(s);
    let q2 = quote(s, &w);
    // A second string after it, so that where the first one ends matters.
    let (text, two) = match s.below(3) {
        0 => (format!("x: {}", q), 0),
        1 => (format!("x: {} y: {}", q, q2), 1),
        _ => (format!("x: [{} {}]", q, q2), 2),
    };
    ctx.input = text.clone();
    ctx.nontrivial = v.chars().any(|c| !c.is_ascii_alphabetic());
    ctx.label_if(v.contains('\n') && q.contains('\n'), "raw newline");
    ctx.label_if(v.contains('\\'), "backslash");
    ctx.label_if(v.contains('"'), "quote");
    ctx.label_if(v.contains('#'), "hash");
    ctx.label_if(!v.is_ascii(), "non-ASCII");
    ctx.label_if(v.len() > 64, "long");
    let o = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    match two {
        0 => {
            let got = o.get_str("x").map_err(|e| e.to_string())?;
            ensure!(got == v, "read as {:?}, expected {:?}", got, v);
        }
        1 => {
            let a = o.get_str("x").map_err(|e| e.to_string())?;
            let b = o.get_str("y").map_err(|e| e.to_string())?;
            ensure!(a == v && b == w, "read as {:?} and {:?}, expected {:?} and {:?}", a, b, v, w);
        }
        _ => {
            let m = MV::arr(vec![MV::str(&v), MV::str(&w)]).unwrap();
            cmp_val(&m, &o.get("x").ok_or("field x is missing")?)?;
        }
    }
    Ok(())
}

/// Strings about as long as buffers tend to be, with an escape or a wide character at every place.
fn c05_long(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (raw, val) = *s.pick(&[("\\n", "\n"), ("\\\\", "\\"), ("\\\"", "\""), ("漢", "漢"), ("é", "é"), ("𝒳", "𝒳"), ("\\$x", "$x"), ("\r\n", "\r\n"), ("a", "a"), ("\\ta", "\ta"), ("\n\n", "\n\n")]);
    let top = s.weighted(&[10, 20, 30, 20, 12, 6, 2]);
    let want = if s.chance(1, 4) {
        s.near(16, 100_000) as usize
    } else {
        [64, 256, 1024, 4096, 8192, 16384, 65536][top] + s.usize(9) * [1, 1, 1, 3, 7][s.usize(5)]
    };
    let lead = "x".repeat(s.usize(4));
    // As long in the text or in the value.
    let unit = if s.bool() { raw.len() } else { val.chars().count() };
    let n = want / unit;
    let tail = *s.pick(&["", "y", "\u{1F600}", " ", "#"]);
    let text = format!("x: \"{}{}{}\" y: 1", lead, raw.repeat(n), tail);
    let v = format!("{}{}{}", lead, val.repeat(n), tail);
    ctx.input = format!("{:?} {:?}*{} {:?}", lead, raw, n, tail);
    publish_input(&ctx.input);
    ctx.nontrivial = true;
    let o = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    let got = o.get_str("x").map_err(|e| e.to_string())?;
    if got != v {
        let at = got.chars().zip(v.chars()).position(|(a, b)| a != b);
        return Err(format!("read otherwise from character {:?} on; {} bytes instead of {}", at, got.len(), v.len()));
    }
    ensure!(o.get_int("y").map(|i| i == BigInt::from(1)).unwrap_or(false), "what follows is read otherwise");
    // And as a value that is written and read.
    let w = Obj::from_pairs(vec![over::obj::Pair("x".into(), Value::from(v.as_str()))], None).map_err(|e| e.to_string())?;
    let back = parse(&no_panic(|| w.write_to_string())?)?.map_err(|e| format!("what was written is rejected: {}", e))?;
    ensure!(back.get_str("x").map(|x| x == v).unwrap_or(false), "written and read, it is another string");
    Ok(())
}

/// Single characters, raw and escaped. The thorough tier goes through all of Unicode in order.
fn c05_chars(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = if ctx.tier_thorough {
        match char::from_u32(s.below(0x110000) as u32) {
            Some(c) => c,
            None => 'x',
        }
    } else {
        match s.below(3) {
            0 => char::from_u32(s.below(0x100) as u32).unwrap(),
            _ => gen_char(s),
        }
    };
    ctx.nontrivial = !c.is_ascii_alphabetic();
    let raw = format!("x: \"a{}b\"", c);
    let esc = format!("x: \"a\\{}b\"", c);
    ctx.input = raw.clone();
    if c != '"' && c != '\\' {
        let o = parse(&raw)?.map_err(|e| format!("the raw character is rejected: {}", e))?;
        let want = format!("a{}b", c);
        let got = o.get_str("x").map_err(|e| e.to_string())?;
        ensure!(got == want, "read as {:?}, expected {:?}", got, want);
    }
    let want = match c {
        'n' => Some('\n'),
        'r' => Some('\r'),
        't' => Some('\t'),
        '\\' | '"' | '\'' | '$' => Some(c),
        _ => None,
    };
    match (want, parse(&esc)?) {
        (Some(w), Ok(o)) => {
            let got = o.get_str("x").map_err(|e| e.to_string())?;
            ensure!(got == format!("a{}b", w), "\\{} read as {:?}", c, got);
        }
        (None, Err(_)) => {}
        (Some(_), Err(e)) => return Err(format!("the escape \\{} is rejected: {}", c, e)),
        (None, Ok(o)) => return Err(format!("the escape {:?} is accepted as {}", c, show_mv(&MV::Obj(reify_obj(&o))))),
    }
    Ok(())
}

fn c05_broken(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = gen_string(s);
    let mut q = quote(s, &v);
    ctx.nontrivial = true;
    if s.bool() {
        // Another escape.
        let c = match s.below(3) {
            0 => *s.pick(&['a', 'b', 'f', 'v', '0', 'x', 'u', 'N', 'T', 'R', ' ', '\n', '\r', '\t', '`', '/', '#', '{', '@', 'é', 's', 'e', '1']),
            _ => gen_char(s),
        };
        let c = if "\\\"'$nrt".contains(c) { 'z' } else { c };
        // At the end, or at a character boundary that is not inside an escape.
        let mut at = vec![1];
        let mut e = false;
        for (i, ch) in q.char_indices().skip(1) {
            if e {
                e = false;
            } else if ch == '\\' {
                e = true;
            }
            if !e && i + ch.len_utf8() < q.len() {
                at.push(i + ch.len_utf8());
            }
        }
        let i = *s.pick(&at);
        q.insert_str(i, &format!("\\{}", c));
        ctx.label("other escape");
    } else {
        // No closing quote.
        q.pop();
        if s.chance(1, 3) {
            q.push_str(s.pick(&["\\", "\\\"", "\\\\\\\"", "\n", " y: 1", "\n}"]));
        }
        ctx.label("unterminated");
    }
    let text = if s.bool() { format!("x: {}", q) } else { format!("y: 1 x: {}", q) };
    ctx.input = text.clone();
    match parse(&text)? {
        Err(_) => Ok(()),
        Ok(o) => Err(format!("accepted as {}", show_mv(&MV::Obj(reify_obj(&o))))),
    }
}

// --------------------------------------------------------------------------------------------- C06

enum Sv {
    Int(i64),
    /// One of LITS.
    Lit(usize),
    Var(&'static str),
    Glob(&'static str),
    Neg(Box<Sv>),
    /// A field of a variable or global.
    Dot(Box<Sv>, &'static str),
    Add(Box<Sv>, Box<Sv>),
    Tup(Vec<Sv>),
    Arr(Vec<Sv>),
    Obj(Vec<(Sf, Sv)>),
}
enum Sf {
    Reg(&'static str),
    Glob(&'static str),
    Parent,
}
const LITS: [&str; 9] = ["null", "true", "false", "\"\"", "\"s\"", "0.5", "{}", "()", "[]"];
fn lit(i: usize) -> MV {
    match i {
        0 => MV::Null,
        1 => MV::Bool(true),
        2 => MV::Bool(false),
        3 => MV::Str("".into()),
        4 => MV::Str("s".into()),
        5 => MV::Frac(BigRational::new(1.into(), 2.into())),
        6 => MV::obj(vec![], None),
        7 => MV::tup(vec![]),
        _ => MV::arr(vec![]).expect("HARNESS ERROR: empty"),
    }
}
/// Names which are easily taken for one another.
const NAMES: [[&str; 5]; 4] =
    [["a", "b", "c", "d", "é"], ["a", "aa", "ab", "a0", "A"], ["x", "X", "_x", "x_", "xé"], ["nul", "nulls", "null_", "true1", "Ob"]];
const GNAMES: [[&str; 4]; 4] =
    [["a", "b", "g", "null"], ["a", "A", "aa", "aaa"], ["x", "_x", "x_", "true"], ["nul", "Null", "Obj", "Ob"]];

struct Sg {
    next: i64,
    size: i64,
    /// Names defined so far, as a hint for making references that mostly resolve.
    defs: Vec<Vec<&'static str>>,
    globs: Vec<&'static str>,
    refs: usize,
    names: &'static [&'static str],
    gnames: &'static [&'static str],
    /// Fields of an object at most.
    fields: usize,
}
impl Sg {
    fn obj(&mut self, s: &mut Src, depth: usize) -> Vec<(Sf, Sv)> {
        self.defs.push(vec![]);
        let n = 1 + s.size(self.fields);
        let mut v = vec![];
        for _ in 0..n {
            if self.size <= 0 {
                break;
            }
            s.span(|s| match s.weighted(&[60, 25, 8]) {
                0 => {
                    let free: Vec<_> = self.names.iter().filter(|n| !self.defs.last().unwrap().contains(n)).collect();
                    let name = if free.is_empty() || s.chance(1, 25) { *s.pick(self.names) } else { **s.pick(&free) };
                    let x = self.val(s, depth);
                    v.push((Sf::Reg(name), x));
                    self.defs.last_mut().unwrap().push(name);
                }
                1 => {
                    let free: Vec<_> = self.gnames.iter().filter(|n| !self.globs.contains(n)).collect();
                    let name = if free.is_empty() || s.chance(1, 25) { *s.pick(self.gnames) } else { **s.pick(&free) };
                    let x = self.val(s, depth);
                    v.push((Sf::Glob(name), x));
                    self.globs.push(name);
                }
                _ => {
                    let o = self.obj(s, depth + 1);
                    v.push((Sf::Parent, Sv::Obj(o)));
                }
            });
        }
        self.defs.pop();
        v
    }
    /// A number or a name.
    fn simple(&mut self, s: &mut Src) -> Sv {
        let known: Vec<&'static str> = self.defs.last().unwrap().clone();
        match s.weighted(&[40, 40, 20]) {
            1 if !known.is_empty() => {
                self.refs += 1;
                Sv::Var(*s.pick(&known))
            }
            2 if !self.globs.is_empty() => {
                self.refs += 1;
                Sv::Glob(*s.pick(&self.globs.clone()))
            }
            _ => {
                self.next += 1;
                Sv::Int(self.next)
            }
        }
    }
    fn val(&mut self, s: &mut Src, depth: usize) -> Sv {
        self.size -= 1;
        let d = if depth < 5 && self.size > 0 { 1 } else { 0 };
        match s.weighted(&[20, 30, 25, 3, 15 * d, 6 * d, 15 * d, 16, 6, 5]) {
            7 => Sv::Lit(s.usize(LITS.len())),
            8 => {
                // A field of an earlier object, or of something else.
                let base = if !self.globs.is_empty() && s.chance(1, 3) {
                    Sv::Glob(*s.pick(&self.globs.clone()))
                } else {
                    let known: Vec<&'static str> = self.defs.last().unwrap().clone();
                    if known.is_empty() {
                        return Sv::Lit(0);
                    }
                    Sv::Var(*s.pick(&known))
                };
                self.refs += 1;
                Sv::Dot(Box::new(base), *s.pick(self.names))
            }
            9 => {
                let (a, b) = (self.simple(s), self.simple(s));
                Sv::Add(Box::new(a), Box::new(b))
            }
            0 => {
                self.next += 1;
                Sv::Int(self.next)
            }
            1 => {
                self.refs += 1;
                let known: Vec<&'static str> = self.defs.last().unwrap().clone();
                let outer: Vec<&'static str> = self.defs.iter().flatten().cloned().collect();
                match s.weighted(&[85, 8, 7]) {
                    0 if !known.is_empty() => Sv::Var(*s.pick(&known)),
                    1 if !outer.is_empty() => Sv::Var(*s.pick(&outer)),
                    2 => Sv::Var(*s.pick(self.names)),
                    _ => {
                        self.next += 1;
                        Sv::Int(self.next)
                    }
                }
            }
            2 => {
                self.refs += 1;
                if !self.globs.is_empty() && s.chance(14, 15) {
                    Sv::Glob(*s.pick(&self.globs.clone()))
                } else if s.chance(1, 3) {
                    Sv::Glob(*s.pick(self.gnames))
                } else {
                    self.next += 1;
                    Sv::Int(self.next)
                }
            }
            3 => {
                self.next += 1;
                Sv::Neg(Box::new(Sv::Int(self.next)))
            }
            4 => {
                let n = s.usize(4);
                Sv::Tup((0..n).map(|_| self.val(s, depth + 1)).collect())
            }
            5 => {
                // References among numbers.
                let n = s.usize(4);
                Sv::Arr((0..n).map(|_| self.simple(s)).collect())
            }
            _ => {
                let o = self.obj(s, depth + 1);
                Sv::Obj(o)
            }
        }
    }
}
fn sv_text(v: &Sv, out: &mut String) {
    match v {
        Sv::Int(i) => out.push_str(&i.to_string()),
        Sv::Lit(i) => out.push_str(LITS[*i]),
        Sv::Dot(b, n) => {
            sv_text(b, out);
            out.push('.');
            out.push_str(n)
        }
        Sv::Add(a, b) => {
            sv_text(a, out);
            out.push('+');
            sv_text(b, out)
        }
        Sv::Var(n) => out.push_str(n),
        Sv::Glob(n) => {
            out.push('@');
            out.push_str(n)
        }
        Sv::Neg(v) => {
            out.push('-');
            sv_text(v, out)
        }
        Sv::Tup(vs) | Sv::Arr(vs) => {
            let tup = matches!(v, Sv::Tup(_));
            out.push(if tup { '(' } else { '[' });
            for (i, x) in vs.iter().enumerate() {
                if i > 0 {
                    out.push(' ');
                }
                sv_text(x, out);
            }
            out.push(if tup { ')' } else { ']' });
        }
        Sv::Obj(fs) => {
            out.push_str("{ ");
            sf_text(fs, out);
            out.push('}');
        }
    }
}
fn sf_text(fs: &[(Sf, Sv)], out: &mut String) {
    for (f, v) in fs {
        match f {
            Sf::Reg(n) => out.push_str(n),
            Sf::Glob(n) => {
                out.push('@');
                out.push_str(n)
            }
            Sf::Parent => out.push('^'),
        }
        out.push_str(": ");
        sv_text(v, out);
        out.push('\n');
    }
}

type Env = Vec<(String, MV)>;
/// Evaluates an object; None if anything in it is rejected.
fn sv_obj(fs: &[(Sf, Sv)], globs: &mut Env) -> Option<Rc<MObj>> {
    let mut own: Env = vec![];
    let mut parent = None;
    for (f, v) in fs {
        // Redefinition is checked before the value is read, but either way the text is rejected.
        let val = sv_val(v, &own, globs)?;
        match f {
            Sf::Reg(n) => {
                if own.iter().any(|(m, _)| m == n) {
                    return None;
                }
                own.push((n.to_string(), val));
            }
            Sf::Glob(n) => {
                if globs.iter().any(|(m, _)| m == n) {
                    return None;
                }
                globs.push((n.to_string(), val));
            }
            Sf::Parent => {
                if parent.is_some() {
                    return None;
                }
                match val {
                    MV::Obj(o) => parent = Some(o),
                    _ => return None,
                }
            }
        }
    }
    Some(Rc::new(MObj { pairs: own, parent }))
}
fn sv_val(v: &Sv, own: &Env, globs: &mut Env) -> Option<MV> {
    Some(match v {
        Sv::Int(i) => MV::int(*i),
        Sv::Lit(i) => lit(*i),
        Sv::Dot(b, n) => match sv_val(b, own, globs)? {
            MV::Obj(o) => o.lookup(n)?.0.clone(),
            // An index in scope.
            c @ MV::Arr(_) | c @ MV::Tup(_) => {
                let i = match own.iter().find(|(m, _)| m == n)?.1 {
                    MV::Int(ref i) => i.to_usize()?,
                    _ => return None,
                };
                match c {
                    MV::Arr(a) => a.vals.get(i)?.clone(),
                    MV::Tup(t) => t.get(i)?.clone(),
                    _ => return None,
                }
            }
            _ => return None,
        },
        Sv::Add(a, b) => match (sv_val(a, own, globs)?, sv_val(b, own, globs)?) {
            (MV::Int(a), MV::Int(b)) => MV::Int(a + b),
            (MV::Int(a), MV::Frac(b)) | (MV::Frac(b), MV::Int(a)) => MV::Frac(b + a),
            (MV::Frac(a), MV::Frac(b)) => MV::Frac(a + b),
            (MV::Str(a), MV::Str(b)) => MV::Str(format!("{}{}", a, b).into()),
            (MV::Arr(a), MV::Arr(b)) => MV::arr(a.vals.iter().chain(b.vals.iter()).cloned().collect())?,
            _ => return None,
        },
        Sv::Neg(v) => match sv_val(v, own, globs)? {
            MV::Int(i) => MV::Int(-i),
            _ => return None,
        },
        Sv::Var(n) => own.iter().find(|(m, _)| m == n)?.1.clone(),
        Sv::Glob(n) => globs.iter().find(|(m, _)| m == n)?.1.clone(),
        Sv::Tup(vs) => {
            let mut o = vec![];
            for v in vs {
                o.push(sv_val(v, own, globs)?);
            }
            MV::tup(o)
        }
        Sv::Arr(vs) => {
            let mut o = vec![];
            for v in vs {
                o.push(sv_val(v, own, globs)?);
            }
            MV::arr(o)?
        }
        Sv::Obj(fs) => MV::Obj(sv_obj(fs, globs)?),
    })
}

fn c06_scopes(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let size = [12, 30, 80, 300][s.weighted(&[60, 30, 10, 1])];
    let k = s.weighted(&[70, 15, 10, 5]);
    let (names, gnames) = (&NAMES[k][..], &GNAMES[k][..]);
    let mut g = Sg { next: 0, size, defs: vec![], globs: vec![], refs: 0, names, gnames, fields: 8 };
    let doc = g.obj(s, 0);
    let mut text = String::new();
    sf_text(&doc, &mut text);
    let text = text;
    ctx.input = text.clone();
    let want = sv_obj(&doc, &mut vec![]);
    ctx.nontrivial = g.refs >= 2 || want.is_none();
    if let Some(m) = &want {
        if m.size() > 3000 {
            ctx.label("skipped: too large");
            return Ok(());
        }
    }
    match (want, parse(&text)?) {
        (Some(m), Ok(o)) => {
            ctx.label("accepted");
            ctx.label_if(g.refs >= 2, "accepted with references");
            cmp_obj(&m, &o)
        }
        (None, Err(_)) => {
            ctx.label("rejected");
            Ok(())
        }
        (Some(_), Err(e)) => Err(format!("every name resolves, but the text is rejected: {}", e)),
        (None, Ok(o)) => Err(format!("a name does not resolve or is defined twice, but the text is read as {}", show_mv(&MV::Obj(reify_obj(&o))))),
    }
}

/// Documents with many names.
fn c06_many(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.below(3) {
        0 => s.range(10, 60),
        1 => s.near(9, 600) as usize,
        _ => s.range(60, 500),
    };
    let mut text = String::new();
    let mut pairs: Vec<(String, MV)> = vec![];
    // What can be named, and the numbers they stand for.
    let mut globals: Vec<(String, i64)> = vec![("@g".into(), 7)];
    let mut fields: Vec<(String, i64)> = vec![];
    text.push_str("@g: 7\n");
    for i in 0..n {
        let k = s.below(9);
        let (g, gv) = s.pick(&globals).clone();
        let v = 1000 + i as i64;
        let f = format!("f{}", i);
        let h = format!("@h{}", i);
        match k {
            0 | 1 => {
                text.push_str(&format!("{}: {}\n", h, v));
                globals.push((h, v));
            }
            2 => {
                text.push_str(&format!("{}: {}\n", h, g));
                globals.push((h, gv));
            }
            3 => {
                text.push_str(&format!("{}: {}\n", f, v));
                fields.push((f.clone(), v));
                pairs.push((f, MV::int(v)));
            }
            4 => {
                text.push_str(&format!("{}: {}\n", f, g));
                fields.push((f.clone(), gv));
                pairs.push((f, MV::int(gv)));
            }
            5 if !fields.is_empty() => {
                let (x, xv) = s.pick(&fields).clone();
                text.push_str(&format!("{}: {}\n", f, x));
                fields.push((f.clone(), xv));
                pairs.push((f, MV::int(xv)));
            }
            6 => {
                text.push_str(&format!("{}: {{{}: {} x: {} y: {} z: x}}\n", f, h, v, h, g));
                pairs.push((f, MV::obj(vec![("x".into(), MV::int(v)), ("y".into(), MV::int(gv)), ("z".into(), MV::int(v))], None)));
                globals.push((h, v));
            }
            7 => {
                text.push_str(&format!("{}: {{^: {{{}: {} x: {}}} y: {}}}\n", f, h, v, h, h));
                let parent = Rc::new(MObj { pairs: vec![("x".into(), MV::int(v))], parent: None });
                pairs.push((f, MV::obj(vec![("y".into(), MV::int(v))], Some(parent))));
                globals.push((h, v));
            }
            _ => {
                text.push_str(&format!("{}: ({{{}: {}}} {} {})\n", f, h, v, h, g));
                pairs.push((f, MV::tup(vec![MV::obj(vec![], None), MV::int(v), MV::int(gv)])));
                globals.push((h, v));
            }
        }
    }
    // The first ones and the last ones, and some others.
    let mut all = vec![];
    for i in 0..s.range(1, 30) {
        let from = if s.bool() || fields.is_empty() { &globals } else { &fields };
        let at = match i {
            0 => 0,
            1 => from.len() - 1,
            _ => s.usize(from.len()),
        };
        all.push(from[at].clone());
    }
    text.push_str(&format!("r: ({})\n", all.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(" ")));
    pairs.push(("r".into(), MV::tup(all.iter().map(|a| MV::int(a.1)).collect())));
    let bad = s.chance(1, 4);
    if bad {
        let g = s.pick(&globals).0.clone();
        let line = match s.below(5) {
            0 => "bad: @nothing".to_string(),
            1 => format!("{}: 1", g),
            2 => format!("bad: {{{}: 1}}", g),
            3 if !fields.is_empty() => format!("{}: 1", s.pick(&fields).0),
            4 if !fields.is_empty() => format!("bad: {{x: {}}}", s.pick(&fields).0),
            _ => format!("bad: {}", &g[1..]),
        };
        text.push_str(&line);
    }
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = n >= 30;
    ctx.label(if bad { "rejected" } else { "accepted" });
    ctx.label_if(globals.len() > 100, "over 100 globals");
    match (parse(&text)?, bad) {
        (Ok(o), false) => cmp_obj(&Rc::new(MObj { pairs, parent: None }), &o),
        (Err(_), true) => Ok(()),
        (Err(e), _) => Err(format!("every name resolves, but the text is rejected: {}", e)),
        (Ok(_), _) => Err("a name does not resolve or is defined twice, but the text is accepted".into()),
    }
}

/// Names used in one file and defined in another, which is no definition.
fn c06_files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let root = fresh_dir();
    ctx.nontrivial = true;
    let n = s.range(2, 4);
    let kinds: Vec<&str> = (0..n).map(|i| if i == 0 { "Obj" } else { *s.pick(&["Obj", "Tup", "Arr"]) }).collect();
    let name = |i: usize| format!("f{}.over", i);
    let names = ["g", "h", "k"];
    let mut log = String::new();
    for i in 0..n {
        // What defines, uses, or includes.
        let mut items: Vec<String> = vec![];
        let mut defined: Vec<String> = vec![];
        for _ in 0..s.range(1, 5) {
            let v = *s.pick(&names);
            let later: Vec<usize> = (i + 1..n).collect();
            let value = match s.below(6) {
                0 | 1 if !later.is_empty() => {
                    let j = *s.pick(&later);
                    if kinds[j] == "Obj" && s.bool() {
                        format!("<\"{}\">", name(j))
                    } else {
                        format!("<{} \"{}\">", kinds[j], name(j))
                    }
                }
                2 => format!("@{}", v),
                3 => v.to_string(),
                4 => format!("@{}.a", v),
                _ => s.below(100).to_string(),
            };
            // Mostly only what can be found.
            let value = match value.trim_start_matches('@').split('.').next() {
                Some(x) if names.contains(&x) => {
                    let d = if value.starts_with('@') { format!("@{}", x) } else { x.to_string() };
                    if defined.contains(&d) || s.chance(1, 6) {
                        if value.ends_with(".a") && s.chance(1, 2) { d } else { value }
                    } else {
                        "7".into()
                    }
                }
                _ => value,
            };
            items.push(match (kinds[i], s.below(4)) {
                ("Obj", 0) | ("Obj", 1) => {
                    let d = format!("@{}", v);
                    let t = format!("{}: {}", d, value);
                    if defined.contains(&d) && !s.chance(1, 20) {
                        continue;
                    }
                    defined.push(d);
                    t
                }
                ("Obj", 2) => {
                    if defined.iter().any(|d| d == v) && !s.chance(1, 20) {
                        continue;
                    }
                    defined.push(v.to_string());
                    format!("{}: {}", v, value)
                }
                ("Obj", _) => format!("f{}: {}", items.len(), value),
                // Fields of objects in a list are no variables there, globals are.
                (_, 0) => {
                    let d = format!("@{}", v);
                    if defined.contains(&d) && !s.chance(1, 20) {
                        continue;
                    }
                    defined.push(d);
                    format!("{{ @{}: {} }}", v, value)
                }
                (_, 1) => format!("{{ {}: {} x: {} }}", v, value, v),
                ("Arr", _) => format!("{{ x: {} }}", value),
                _ => value,
            });
        }
        let text = items.join(*s.pick(&["\n", " ", "\n\n"]));
        root.write(&name(i), text.as_bytes())?;
        log.push_str(&format!("--- {} as {}\n{}\n", name(i), kinds[i], text));
    }
    ctx.input = log;
    publish_input(&ctx.input);
    let from_text = s.chance(1, 6);
    if from_text {
        let text = format!("@g: 1 @h: {{a: 2}} g: 3 x: <\"{}\"> y: @g", root.str("f0.over"));
        judge(&text, ctx, false)?;
    } else {
        let v = judge_file(&root.str("f0.over"), ctx, false)?;
        ctx.label(match v.want {
            Outcome::Ok(_) => "accepted",
            _ => "rejected",
        });
    }
    Ok(())
}

fn c06_doc(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    c.refs = 40;
    c.exprs = 2;
    c.globals = 10;
    c.budget += 10;
    with_pantry(s, &mut c);
    let (text, m, g) = gen_doc(s, ctx, c, None);
    self_check(&text, &m)?;
    ctx.nontrivial = g.labels.contains("var") || g.labels.contains("global_ref");
    let o = parse(&text)?.map_err(|e| format!("a well-formed document is rejected: {}", e))?;
    cmp_obj(&m, &o)
}

// --------------------------------------------------------------------------------------------- C08

/// A document with something to point at. Gives its tokens, generator and fields.
fn c08_base(s: &mut Src) -> (TG, Rc<MObj>) {
    let mut c = Cfg::basic(s);
    c.containers = 25;
    c.globals = 5;
    c.parents = 8;
    c.budget = [15, 40, 100][s.weighted(&[60, 30, 10])];
    c.exprs = 1;
    c.refs = 3;
    with_pantry(s, &mut c);
    let mut g = TG::new(c);
    // Something to use as an index.
    g.push(Ws::Opt, "i0:");
    g.push(Ws::Opt, "0");
    g.push(Ws::Req, "@i1:");
    g.push(Ws::Opt, "1");
    g.globals.push(("i1".into(), MV::int(1)));
    let mut scope: Scope = vec![("i0".into(), MV::int(0))];
    let n = 1 + s.length(6);
    for _ in 0..n {
        s.span(|s| {
            let name = fresh_name(s, &|n| scope.iter().any(|(m, _)| m == n) || n == "r");
            g.push(Ws::Req, format!("{}:", name));
            let t = match s.weighted(&[40, 20, 20, 20]) {
                0 => Some(MT::Obj),
                1 => Some(MT::Arr(Box::new(gen_type(s, 2)))),
                2 => Some(MT::Tup((0..1 + s.usize(3)).map(|_| gen_type(s, 2)).collect())),
                _ => None,
            };
            let v = g.value(s, Ws::Opt, &scope, 1, t.as_ref());
            scope.push((name, v));
        });
    }
    let m = Rc::new(MObj { pairs: scope, parent: None });
    (g, m)
}

fn c08_paths(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut g, m) = c08_base(s);
    let paths: Vec<_> = g.paths(&m.pairs).into_iter().filter(|p| p.0.contains('.') && p.1.nesting() < 60).collect();
    if paths.is_empty() {
        ctx.label("no path");
        return Ok(());
    }
    let kinds: BTreeSet<&'static str> = paths.iter().map(|p| p.2).collect();
    let k = *s.pick(&kinds.into_iter().collect::<Vec<_>>());
    let c: Vec<_> = paths.into_iter().filter(|p| p.2 == k).collect();
    let (mut p, v, _) = s.pick(&c).clone();
    ctx.label(k);
    // The index in another form.
    if let Some((front, last)) = p.clone().rsplit_once('.') {
        if last.bytes().all(|b| b.is_ascii_digit()) && s.chance(1, 3) {
            let last = match s.below(4) {
                0 => format!("0{}", last),
                1 => format!("0_{}", last),
                2 => format!("{}{}", "0".repeat(s.usize(30)), last),
                _ => last.chars().map(|c| c.to_string()).collect::<Vec<_>>().join("_"),
            };
            ctx.label("index in another form");
            p = format!("{}.{}", front, last);
        }
    }
    // Several uses: alone, in a tuple, signed if it is a number.
    let num = matches!(v, MV::Int(_) | MV::Frac(_));
    let neg = num && s.chance(1, 4);
    g.push(Ws::Req, "r:");
    let intup = s.chance(1, 3);
    if intup {
        g.push(Ws::Opt, "(");
        g.push(Ws::Opt, "1");
        g.push(Ws::Req, format!("{}{}", if neg { "-" } else { "" }, p));
        g.push(Ws::Opt, ")");
    } else {
        g.push(Ws::Opt, format!("{}{}", if neg { "-" } else { "" }, p));
    }
    let style = pick_style(s);
    let text = render(s, &g.toks, style);
    ctx.input = text.clone();
    ctx.nontrivial = true;
    ctx.label_if(p.matches('.').count() >= 2, "two dots or more");
    let v = match (neg, v) {
        (true, MV::Int(i)) => MV::Int(-i),
        (true, MV::Frac(f)) => MV::Frac(-f),
        (_, v) => v,
    };
    let o = parse(&text)?.map_err(|e| format!("the path {} is rejected: {}", p, e))?;
    let mut got = o.get("r").ok_or("field r is missing")?;
    if intup {
        got = got.get_tup().and_then(|t| t.get(1)).map_err(|e| e.to_string())?;
    }
    cmp_val(&v, &got).map_err(|e| format!("{}: {}", p, e))?;
    // The rest of the document is what it was.
    for (n, v) in &m.pairs {
        cmp_val(v, &o.get(n).ok_or_else(|| format!("field {} is missing", n))?)?;
    }
    Ok(())
}

/// A path of up to sixty parts, through objects which have the next part themselves, or from an object
/// above them.
fn c08_deep(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.range(2, 58);
    // The value, as text and as what it is, from the inside.
    let mut text = "7".to_string();
    let mut val = MV::int(7);
    let mut parts: Vec<String> = vec![];
    let one = s.chance(1, 4);
    let own_only = s.chance(1, 6);
    let mut inherited = 0;
    for i in 0..n {
        // The document and the value of the variable count, too.
        let left = 62usize.saturating_sub(val.nesting() + (n - i));
        let name = if one { "f".to_string() } else { format!("f{}", s.usize(3)) };
        let ups = if own_only { 0 } else { s.weighted(&[50, 40, 10]).min(left) };
        inherited += (ups > 0) as usize;
        let (mut t, mut v) = (format!("{}: {}", name, text), vec![(name.clone(), val.clone())]);
        if s.chance(1, 4) {
            t.push_str(" g: 0");
            v.push(("g".to_string(), MV::int(0)));
        }
        let mut o = Rc::new(MObj { pairs: v, parent: None });
        t = format!("{{{}}}", t);
        for up in 0..ups {
            // Below it, one which does not have the name.
            let (f, x) = (format!("h{}", up), MV::int(i as i64));
            t = if s.bool() { format!("{{^: {} {}: {}}}", t, f, i) } else { format!("{{{}: {} ^: {}}}", f, i, t) };
            o = Rc::new(MObj { pairs: vec![(f, x)], parent: Some(o) });
        }
        text = t;
        val = MV::Obj(o);
        parts.insert(0, name);
    }
    let global = s.bool();
    let root = if global { "@o" } else { "o" };
    let mut doc = format!("{}: {}\n", root, text);
    // Ways of several lengths, the whole one among them.
    let mut ways = vec![];
    for k in 0..s.range(1, 4) {
        let len = if k == 0 { n } else { s.range(1, n) };
        let mut at = &val;
        let mut end = true;
        for p in &parts[..len] {
            match at {
                MV::Obj(o) => match o.lookup(p) {
                    Some((v, _)) => at = v,
                    None => end = false,
                },
                _ => end = false,
            }
        }
        if !end {
            return Err(format!("{}the path is not there", HARNESS));
        }
        ways.push((format!("r{}", k), at.clone()));
        doc.push_str(&format!("r{}: {}.{}\n", k, root, parts[..len].join(".")));
    }
    // One that is not there.
    let wrong = s.chance(1, 8);
    if wrong {
        let len = s.range(0, n - 1);
        let mut p = parts[..len].to_vec();
        p.push("none".to_string());
        doc.push_str(&format!("bad: {}.{}\n", root, p.join(".")));
    }
    ctx.input = doc.clone();
    ctx.nontrivial = n >= 8;
    ctx.label_if(n >= 32, "32 parts or more");
    ctx.label_if(inherited > 0, "through what is inherited");
    ctx.label_if(wrong, "not there");
    match (parse(&doc)?, wrong) {
        (Ok(o), false) => {
            for (r, v) in &ways {
                cmp_val(v, &o.get(r).ok_or_else(|| format!("field {} is missing", r))?).map_err(|e| format!("{}: {}", r, e))?;
            }
            Ok(())
        }
        (Err(_), true) => Ok(()),
        (Ok(_), true) => Err("a path to nothing is accepted".into()),
        (Err(e), false) => Err(format!("paths which lead to something are rejected: {}", e)),
    }
}

fn c08_faults(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut g, m) = c08_base(s);
    let all = g.paths(&m.pairs);
    let objs: Vec<_> = all.iter().filter(|p| matches!(p.1, MV::Obj(_)) && p.2 != "index" && !p.2.starts_with("index")).collect();
    let seqs: Vec<_> = all.iter().filter(|p| matches!(p.1, MV::Arr(_) | MV::Tup(_)) && !p.2.starts_with("index")).collect();
    let plain: Vec<_> = all
        .iter()
        .filter(|p| !matches!(p.1, MV::Obj(_) | MV::Arr(_) | MV::Tup(_)) && !p.2.starts_with("index"))
        .collect();
    let len = |v: &MV| match v {
        MV::Arr(a) => a.vals.len(),
        MV::Tup(a) => a.len(),
        _ => 0,
    };
    let kind = s.weighted(&[20, 15, 10, 10, 10, 10, 10, 5, 8, 8, 6]);
    let mut extra = String::new();
    let (l, p): (&'static str, String) = match kind {
        0 if !objs.is_empty() => {
            let o = *s.pick(&objs);
            let mo = match &o.1 {
                MV::Obj(x) => x.clone(),
                _ => unreachable!(),
            };
            let n = fresh_name(s, &|n| mo.lookup(n).is_some());
            ("missing field", format!("{}.{}", o.0, n))
        }
        1 if !seqs.is_empty() => {
            let q = *s.pick(&seqs);
            let k = len(&q.1);
            let i = match s.below(6) {
                0 => BigInt::from(k),
                1 => BigInt::from(k + 1 + s.usize(1000)),
                2 => (BigInt::from(1) << 64) + BigInt::from(s.usize(k + 1)),
                3 => (BigInt::from(1) << 32) + BigInt::from(s.usize(k + 1)),
                // Just below a power of two, where an index plus something wraps.
                4 => (BigInt::from(1) << *s.pick(&[8usize, 16, 31, 32, 63, 64, 128])) - BigInt::from(1 + s.usize(2)),
                _ => (BigInt::from(1) << (8 + s.usize(200))) + BigInt::from(s.usize(k + 1)),
            };
            let i = i.max(BigInt::from(k));
            if s.chance(1, 3) {
                extra = format!("@big: {}", i);
                ("index out of range", format!("{}.@big", q.0))
            } else {
                ("index out of range", format!("{}.{}", q.0, i))
            }
        }
        2 if !seqs.is_empty() => {
            let q = *s.pick(&seqs);
            let i = match s.below(3) {
                0 => BigInt::from(1 + s.usize(3)),
                1 => (BigInt::from(1) << *s.pick(&[8usize, 16, 31, 32, 63, 64, 128])) - BigInt::from(s.usize(4)),
                _ => (BigInt::from(1) << (8 + s.usize(200))) + BigInt::from(s.usize(4)),
            };
            extra = format!("@neg: -{}", i);
            ("negative index", format!("{}.@neg", q.0))
        }
        3 if !seqs.is_empty() => {
            let q = *s.pick(&seqs);
            extra = format!("@fr: {}", s.pick(&["0.0", "1.0", "0.5", "2/2"]));
            ("fractional index", format!("{}.@fr", q.0))
        }
        4 if !seqs.is_empty() => {
            let q = *s.pick(&seqs);
            extra = format!("@st: {}", s.pick(&["\"0\"", "null", "true", "[0]", "(0)", "{}", "false"]));
            ("index of another type", format!("{}.@st", q.0))
        }
        5 if !objs.is_empty() => {
            let o = *s.pick(&objs);
            ("global after an object", format!("{}.@i1", o.0))
        }
        6 if !objs.is_empty() || !seqs.is_empty() => {
            let o = if !objs.is_empty() { *s.pick(&objs) } else { *s.pick(&seqs) };
            let next = match &o.1 {
                MV::Obj(x) => x.pairs.first().map(|p| p.0.clone()).unwrap_or("a".into()),
                _ => "0".into(),
            };
            let w = *s.pick(&[" ", "\n", "\t", "#c\n", "\u{a0}"]);
            let t = match s.below(2) {
                0 => format!("{}.{}{}", o.0, w, next),
                _ => format!("{}{}.{}", o.0, w, next),
            };
            ("space at the dot", t)
        }
        7 if !plain.is_empty() => {
            let o = *s.pick(&plain);
            let n = s.pick(&["a", "0", "@i1", "i0"]).to_string();
            ("dot on a plain value", format!("{}.{}", o.0, n))
        }
        8 if !objs.is_empty() => {
            let o = *s.pick(&objs);
            ("reserved word as field", format!("{}.{}", o.0, s.pick(&RESERVED)))
        }
        9 if !seqs.is_empty() => {
            let q = *s.pick(&seqs);
            let n = *s.pick(&["0.0", "-1", "-0", "+0", "1.", ".0", ",0", "x9", "\"0\"", "(0)", "", ".", "^", "0x", "1_a", "0__0"]);
            ("malformed index", format!("{}.{}", q.0, n))
        }
        _ => {
            let n = *s.pick(&["null.a", "true.0", "false.a", "@.a", "@nope.a", "nope.a", "Obj.a", "Arr.0", "i0.0", "@i1.a", "i0..0", ".a", "i0."]);
            ("dot on a keyword or unknown name", n.to_string())
        }
    };
    ctx.label(l);
    if !extra.is_empty() {
        g.push(Ws::Req, extra);
    }
    g.push(Ws::Req, "r:");
    g.push(Ws::Opt, p.clone());
    let style = pick_style(s);
    let mut text = render(s, &g.toks, style);
    if s.bool() {
        text.push_str("\nz: 1");
    }
    ctx.input = text.clone();
    ctx.nontrivial = true;
    match parse(&text)? {
        Err(_) => Ok(()),
        Ok(o) => Err(format!("{}: {} is accepted as {}", l, p, o.get("r").map(|v| show_val(&v)).unwrap_or_default())),
    }
}

// --------------------------------------------------------------------------------------------- C13

pub fn mutated(s: &mut Src, ctx: &mut Ctx, style: Option<Style>) -> String {
    let mut c = Cfg::basic(s);
    c.budget = [4, 12, 30, 60][s.weighted(&[25, 40, 25, 10])];
    with_pantry(s, &mut c);
    let mut g = TG::new(c);
    let _ = g.doc(s);
    let mut toks = g.toks;
    let n = s.weighted(&[0, 75, 20, 5]);
    let how = s.below(3);
    if how < 2 {
        for _ in 0..n {
            let l = mutate_toks(s, &mut toks);
            ctx.label(l);
        }
    }
    let style = match style {
        Some(st) => st,
        None => pick_style(s),
    };
    let mut text = render(s, &toks, style);
    if how == 2 {
        for _ in 0..n {
            let (t, l) = mutate_text(s, &text);
            text = t;
            ctx.label(l);
        }
    }
    ctx.input = text.clone();
    publish_input(&text);
    text
}

fn c13_mutated(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let st = *s.pick(&[Style::Lines, Style::Wild, Style::Wild, Style::Blank, Style::CrLf, Style::Spaced]);
    let text = mutated(s, ctx, Some(st));
    let v = judge(&text, ctx, true)?;
    if let Outcome::Err(w) = &v.want {
        ctx.nontrivial = w.line > 1 || w.col.map_or(true, |c| c > 10);
        if let Some(Err(e)) = &v.got {
            // Text has no file to name.
            let _ = e;
        }
    }
    Ok(())
}

/// A valid document with a fault whose place is known without reading it.
pub fn plant(s: &mut Src, pantry: bool) -> (String, usize, usize, &'static str) {
    let mut c = Cfg::basic(s);
    c.budget = [6, 20, 50][s.weighted(&[40, 40, 20])];
    if pantry {
        with_pantry(s, &mut c);
    }
    let mut g = TG::new(c);
    // Multi-line and multi-byte strings in front.
    for i in 0..s.usize(3) {
        g.push(if i == 0 { Ws::Opt } else { Ws::Req }, format!("q{}:", i));
        let v = gen_string(s);
        let t = quote(s, &v);
        g.push(Ws::Opt, t);
    }
    let first = g.toks.len();
    let m = g.doc(s);
    if first > 0 && g.toks.len() > first {
        g.toks[first].ws = Ws::Req;
    }
    if g.toks.is_empty() {
        g.push(Ws::Opt, "z:");
        g.push(Ws::Opt, "1");
    }
    // Names the document already uses could clash with the ones in front; those have digits q0, q1.
    let style = *s.pick(&[Style::Lines, Style::Wild, Style::Blank, Style::CrLf, Style::Spaced]);
    let mut text = render(s, &g.toks, style);
    if text.chars().rev().take_while(|c| *c != '\n').any(|c| c == '#') || !text.ends_with('\n') {
        text.push('\n');
    }
    // Now and then very long lines or very many.
    if s.chance(1, 150) {
        let k = if s.bool() { s.range(100, 70_000) } else { s.near(9, 70_000) as usize };
        text.push_str(&s.pick(&["\n", "#\n", "\r\n", "# é\n"]).repeat(k));
    }
    let pad = match s.weighted(&[297, 2, 1]) {
        0 => s.usize(3),
        1 => s.range(100, 70_000),
        _ => s.near(9, 70_000) as usize / 2,
    };
    let pad = "  ".repeat(pad) + s.pick(&["", "\t", "\u{3000}"]);
    text.push_str(&pad);
    let name = "faulty";
    // (text before the fault, faulty token, rest, what)
    let w = *s.pick(&[" ", "\n", "\n\n\t", " # c\n ", "\r\n"]);
    let dup = m.pairs.first().map(|p| p.0.clone());
    let (a, b, c, l): (String, String, String, &'static str) = match s.below(17) {
        0 => (format!("{}:{}", name, w), "nope_at_all".into(), "\nz9: 1".into(), "unknown variable"),
        1 => (format!("{}:{}", name, w), "@nope_at_all".into(), " z9: 1".into(), "unknown global"),
        2 => (format!("{}:{}", name, w), "?".into(), "".into(), "bad value char"),
        3 => (format!("{}:{}[1{}", name, w, w), "\"é\"".into(), " 2]".into(), "element type"),
        4 => (format!("{}:{}[1{}2", name, w, w), ")".into(), " x: 1".into(), "wrong bracket"),
        5 => (format!("{}:{}1+", name, w), "\"s\"".into(), "".into(), "operand type"),
        6 => (format!("{}:{}1/", name, w), "0".into(), "\n".into(), "division by zero"),
        7 => (format!("{}:{}\"é\n\t", name, w), "\\q".into(), "\"".into(), "bad escape"),
        8 => (format!("{}: 1{}", name, w), "null".into(), ": 2".into(), "reserved name"),
        9 => (format!("{}: {{{}^:{}", name, w, w), "7".into(), " b9: 2}".into(), "parent is not an object"),
        10 => {
            // The path is the faulty token, whatever stands in front of it and however long it is.
            let key = *s.pick(&["", "", "Obj", "Str", "Arr", "Tup"]);
            let gap = if key.is_empty() { "" } else { *s.pick(&[" ", "\n", "\n\n\t", " # c\n ", "\r\n"]) };
            let path = if s.bool() { "no/such/file.over".to_string() } else { format!("no/such/{}", gen_string(s)) };
            let path = quote(s, &path);
            (format!("{}:{}<{}{}{}", name, w, w, key, gap), path, ">".into(), "bad include path")
        }
        11 => (format!("{}:{}<{}", name, w, w), "1".into(), " \"x\">".into(), "bad include keyword"),
        12 => (format!("{}:{}12_3", name, w), "x".into(), "4".into(), "bad number char"),
        13 => (format!("{}: (1 2){}u: {}.", name, w, name), "2".into(), " ".into(), "index out of range"),
        14 => (format!("{}: {{a: 1}}{}u: {}.", name, w, name), "b".into(), " ".into(), "unknown field"),
        15 => match dup {
            Some(d) => (String::new(), d, ": 1".into(), "duplicate"),
            None => (format!("{}: 1{}", name, w), name.into(), ": 2".into(), "duplicate"),
        },
        _ => (format!("{}:{}-", name, w), "true".into(), "".into(), "sign on a non-number"),
    };
    let skip = if l == "bad escape" { 1 } else { 0 };
    text.push_str(&a);
    let before: Vec<char> = text.chars().collect();
    let line = 1 + before.iter().filter(|c| **c == '\n').count();
    let col = 1 + before.iter().rev().take_while(|c| **c != '\n').count() + skip;
    text.push_str(&b);
    text.push_str(&c);
    (text, line, col, l)
}

fn c13_planted(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (text, line, col, l) = plant(s, true);
    ctx.label(l);
    ctx.input = text.clone();
    ctx.nontrivial = line > 1;
    ctx.label_if(line > 10, "past line 10");
    match parse(&text)? {
        Ok(_) => Err(format!("accepted despite {}", l)),
        Err(e) => check_pos(&e, &RErr { what: l, file: None, line, col: Some(col), newline: false }),
    }
}

/// A link to a file whose own name is no UTF-8: nothing says that it can be included, but if not, then
/// the error is at the path.
fn c13_odd_link(s: &mut Src, ctx: &mut Ctx, dir: &super::files::Dir) -> CaseResult {
    use std::os::unix::ffi::OsStrExt;
    let harness = |e: std::io::Error| format!("{}{}", HARNESS, e);
    let odd = dir.path().join(std::ffi::OsStr::from_bytes(b"\xff.over"));
    let kind = *s.pick(&["", "Obj ", "Str ", "Arr\n", "Tup # c\n  "]);
    std::fs::write(&odd, if kind.starts_with(['A', 'T']) { "1" } else { "a: 1" }).map_err(harness)?;
    std::os::unix::fs::symlink(&odd, dir.path().join("ln.over")).map_err(harness)?;
    let before = format!("{}k: 1{}x: <{}", "# \u{e9}\n".repeat(s.usize(4)), s.pick(&[" ", "\n", "\n\n   "]), kind);
    let line = 1 + before.matches('\n').count();
    let col = 1 + before.rsplit('\n').next().unwrap().chars().count();
    let text = format!("{}\"ln.over\"> y: 2", before);
    let at = dir.path().join("m.over").to_str().unwrap().to_string();
    std::fs::write(&at, &text).map_err(harness)?;
    ctx.input = format!("ln.over is a link to a file whose name is no UTF-8: {}", text);
    ctx.label("link to an odd name");
    ctx.nontrivial = true;
    match no_panic(|| Obj::from_file(&at))? {
        Ok(_) => Ok(()),
        Err(e) => check_pos(&e, &RErr { what: "odd name", file: Some(at), line, col: Some(col), newline: false }),
    }
}

fn c13_files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::fs;
    let dir = super::files::fresh_dir();
    if s.chance(1, 40) {
        return c13_odd_link(s, ctx, &dir);
    }
    // The chain of includes leading to the faulty file.
    let n = s.usize(4);
    // A planted fault, or any (the reference reader says where), the end of the file among them.
    let planted = s.bool();
    let (text, line, col, l) = if planted {
        plant(s, false)
    } else {
        let mut t = mutated(s, ctx, None);
        match s.below(4) {
            0 => t.push_str(s.pick(&["\nz: <Str\n\"no/such\">", "\nz: <Arr # c\n \"no/such\n\n\" >", "\nz: (1 <Tup\t\"no/é\">)", "\nz: <Obj \n\n1>", "\nz: <Str \"no/such\"", "\nz: <\n\"no\"\n>", "\nz: <Str\n", "\nz: \"", "\nz: \"é\n\n", "\nz: \"a\\", "\nz: [1\n", "\nz: (", "\nz: {", "\nz:", "\nz: <", "\nz: <Str", "\nz: 1 +", "\nz", "\n@", "\n^", "\nz: -", "\nz: (1).", "\nz: ( # end", "\nz: 1."])),
            1 => {
                let cs: Vec<char> = t.chars().collect();
                t = cs[..s.usize(cs.len() + 1)].iter().collect();
            }
            _ => {}
        }
        (t, 0, 0, "any fault")
    };
    ctx.label(l);
    let in_dir = s.bool();
    let rel = |i: usize| -> String {
        if in_dir && i > 0 {
            format!("sub/f{}.over", i)
        } else {
            format!("f{}.over", i)
        }
    };
    fs::create_dir_all(dir.path().join("sub")).map_err(|e| format!("{}{}", HARNESS, e))?;
    let spell = s.below(3);
    let mut named: Vec<String> = vec![];
    let start = match s.below(3) {
        0 => dir.path().join(rel(0)).to_str().unwrap().to_string(),
        1 => rel(0),
        _ => format!("./{}", rel(0)),
    };
    named.push(start.clone());
    for i in 0..=n {
        let p = dir.path().join(rel(i));
        if i == n {
            fs::write(&p, &text).map_err(|e| format!("{}{}", HARNESS, e))?;
        } else {
            let from_sub = in_dir && i > 0;
            let to = rel(i + 1);
            let target = if from_sub { to.trim_start_matches("sub/").to_string() } else { to };
            let target = match spell {
                0 => target,
                1 => format!("./{}", target),
                _ if from_sub => format!("../sub/{}", target),
                _ => format!("sub/../{}", target),
            };
            let pad = "# é\n".repeat(s.usize(3));
            fs::write(&p, format!("{}a: 1\nb: [2\n3]\nx: <\"{}\">", pad, target)).map_err(|e| format!("{}{}", HARNESS, e))?;
            let parent = std::path::Path::new(&named[i]).parent().unwrap().join(&target);
            named.push(parent.to_str().unwrap().to_string());
        }
    }
    ctx.input = format!("{} levels of include, {}: {}", n, start, text);
    ctx.nontrivial = n > 0;
    ctx.label_if(n > 0, "in an included file");
    let _cwd = super::files::Cwd::enter(dir.path());
    if !planted {
        let v = judge_file(&start, ctx, true)?;
        if let Outcome::Err(w) = &v.want {
            ctx.label_if(w.col.is_none(), "end of a file");
            if w.line > 0 && w.file.as_deref() != Some(&named[n][..]) {
                return Err(format!("{}the reference reader names {:?}, not {:?}", HARNESS, w.file, named[n]));
            }
        }
        return Ok(());
    }
    let got = no_panic(|| Obj::from_file(&start))?;
    let r = match got {
        Ok(_) => Err(format!("accepted despite {}", l)),
        Err(e) => check_pos(&e, &RErr { what: l, file: Some(named[n].clone()), line, col: Some(col), newline: false }),
    };
    r
}

// --------------------------------------------------------------------------------------------- C14

fn c14_valid(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    with_pantry(s, &mut c);
    let (text, m, g) = gen_doc(s, ctx, c, None);
    self_check(&text, &m)?;
    ctx.nontrivial = g.toks.len() >= 3;
    let o = parse(&text)?.map_err(|e| format!("a well-formed document is rejected: {}", e))?;
    cmp_obj(&m, &o)
}

fn c14_mutated(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let text = mutated(s, ctx, None);
    ctx.nontrivial = text.len() >= 12;
    judge(&text, ctx, false).map(|_| ())
}

fn c14_soup(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut text = soup(s, 24);
    if s.bool() {
        text = format!("a: {}", text);
    }
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = text.len() >= 12;
    judge(&text, ctx, false).map(|_| ())
}


/// Every cut of a document that is not at a token boundary of the top level must be rejected, or
/// read as what the reference reader says.
fn c14_truncated(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    c.budget = [4, 10, 25][s.weighted(&[40, 40, 20])];
    with_pantry(s, &mut c);
    let (text, m, _) = gen_doc(s, ctx, c, None);
    self_check(&text, &m)?;
    let cs: Vec<char> = text.chars().collect();
    ctx.nontrivial = cs.len() >= 12;
    let k = 6.min(cs.len() + 1);
    for _ in 0..k {
        let i = s.usize(cs.len() + 1);
        let t: String = cs[..i].iter().collect();
        ctx.input = t.clone();
        judge(&t, ctx, false)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C16

pub fn two_layouts(s: &mut Src, toks: &[Tok], never_empty: bool) -> (String, String) {
    let all = [Style::Minimal, Style::Spaced, Style::Lines, Style::CrLf, Style::Blank, Style::Wild];
    let full = [Style::Spaced, Style::Lines, Style::CrLf, Style::Blank, Style::Wild];
    let pick = |s: &mut Src| if never_empty { *s.pick(&full) } else { *s.pick(&all) };
    let mut toks: Vec<Tok> = toks.to_vec();
    if never_empty {
        for t in toks.iter_mut() {
            if t.ws == Ws::Opt {
                t.ws = Ws::Req;
            }
        }
    }
    let a = pick(s);
    let mut b = pick(s);
    if b == a && b != Style::Blank {
        b = Style::Wild;
    }
    let x = render(s, &toks, a);
    let y = render(s, &toks, b);
    (x, y)
}

fn c16_compare(x: &str, y: &str, ctx: &mut Ctx) -> CaseResult {
    match (parse(x)?, parse(y)?) {
        (Ok(a), Ok(b)) => {
            ctx.label("both accepted");
            let (a, b) = (reify_obj(&a), reify_obj(&b));
            ensure!(
                a.same(&b),
                "the layouts differ in meaning: {:?} is {}, {:?} is {}",
                x,
                show_mv(&MV::Obj(a)),
                y,
                show_mv(&MV::Obj(b))
            );
            Ok(())
        }
        (Err(_), Err(_)) => {
            ctx.label("both rejected");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("{:?} is accepted, {:?} is rejected: {}", x, y, e)),
        (Err(e), Ok(_)) => Err(format!("{:?} is accepted, {:?} is rejected: {}", y, x, e)),
    }
}

fn c16_valid(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    with_pantry(s, &mut c);
    let mut g = TG::new(c);
    let m = g.doc(s);
    ctx.label_if(g.labels.contains("include"), "include");
    let (x, y) = two_layouts(s, &g.toks, false);
    ctx.input = format!("{}\n---\n{}", x, y);
    ctx.nontrivial = x != y && (y.contains('#') || y.chars().any(|c| c.is_whitespace() && c != ' '));
    for t in [&x, &y] {
        ctx.label_if(t.contains('#'), "comment");
        ctx.label_if(t.contains("\r\n"), "CRLF");
        let o = parse(t)?.map_err(|e| format!("a well-formed document {:?} is rejected: {}", t, e))?;
        cmp_obj(&m, &o).map_err(|e| format!("{:?}: {}", t, e))?;
    }
    c16_compare(&x, &y, ctx)
}

fn c16_mutated(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    c.budget = [4, 12, 30][s.weighted(&[40, 40, 20])];
    with_pantry(s, &mut c);
    let mut g = TG::new(c);
    let _ = g.doc(s);
    let mut toks = g.toks;
    let l = mutate_toks(s, &mut toks);
    ctx.label(l);
    // Tokens must stay tokens: no stray quote, comment or backslash.
    for t in &toks {
        let full = t.text.starts_with('"') && t.text.ends_with('"') && t.text.len() >= 2;
        if !full && t.text.contains(|c: char| c == '"' || c == '#' || c == '\\' || c.is_whitespace()) {
            ctx.label("skipped");
            return Ok(());
        }
    }
    let (x, y) = two_layouts(s, &toks, true);
    ctx.input = format!("{}\n---\n{}", x, y);
    ctx.nontrivial = x != y;
    c16_compare(&x, &y, ctx)
}

/// Small documents, as tokens and the gaps needed between them.
const SHAPES: [&[&str]; 18] = [
    &["a:", "<", "\"pa\"", ">", " ", "b:", "1"],
    &["a:", "<", "Str", " ", "\"pa\"", ">"],
    &["a:", "(", "<", "Arr", " ", "\"pb\"", ">", " ", "2", ")"],
    &["a:", "<", "Tup", " ", "\"pe\"", ">", " ", "^:", "<", "Obj", " ", "\"pd\"", ">"],
    &["a:", "1"],
    &["a:", "1", " ", "b:", "2"],
    &["a:", "{", "}", " ", "b:", "2"],
    &["a:", "[", "1", " ", "2", "]"],
    &["a:", "(", "1", " ", "\"x\"", " ", "null", ")"],
    &["a:", "{", "b:", "1", " ", "c:", "\"x\"", "}"],
    &["a:", "1", " ", "b:", "a", " ", "c:", "(", "a", " ", "b", ")"],
    &["^:", "{", "a:", "1", "}", " ", "b:", "1.5"],
    &["@g:", "1", " ", "b:", "@g"],
    &["a:", "\"s\"", " ", "b:", "a+a"],
    &["a:", "[", "[", "]", " ", "[", "1", "]", "]"],
    &["a:", "true", " ", "b:", "false"],
    &["a:", "(", "1", ")", " ", "b:", "a.0", " ", "c:", "-b"],
    &["a:", "2*3", " ", "b:", "0,5"],
];

/// A very long gap at one spot of a small document.
fn c16_long(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let parts = SHAPES[s.usize(SHAPES.len())];
    let gaps = parts.iter().filter(|p| **p != " ").count() + 1;
    let at = s.usize(gaps);
    let want = match s.below(4) {
        0 => s.near(16, 100_000) as usize,
        1 => (1usize << s.range(6, 16)) + s.usize(7) - 3,
        _ => s.range(16, 40_000),
    };
    let how = s.below(5);
    let unit = match how {
        0 | 1 => s.pick(&WS_CHARS).to_string(),
        2 => format!("{}{}", s.pick(&WS_CHARS), s.pick(&WS_CHARS)),
        3 => s.pick(&["#\n", "# a\n", " #\r\n", "#\"\n", "#}\n", "##\n\n"]).to_string(),
        _ => s.pick(&["x", "#", "\"", "é", "漢", " ", "\\", "\r", "a: 1 ", "}"]).to_string(),
    };
    let size = if s.bool() { unit.len() } else { unit.chars().count() };
    let mut g = unit.repeat(want / size);
    if how == 4 {
        // One long comment.
        g = format!("{}#{}\n", if s.bool() { " " } else { "" }, g);
    }
    let last = at == gaps - 1;
    if last && g.ends_with('\n') && s.bool() {
        g.pop();
    }
    let (mut x, mut y) = (String::new(), String::new());
    let mut k = 0;
    let mut req = false;
    for p in parts.iter().chain(&[""]) {
        if *p == " " {
            req = true;
            continue;
        }
        x.push_str(if req { " " } else { "" });
        y.push_str(if k == at { &g } else if req { " " } else { "" });
        x.push_str(p);
        y.push_str(p);
        req = false;
        k += 1;
    }
    ctx.input = format!("{:?} with {} characters of {:?} in gap {}", x, g.chars().count(), unit, at);
    publish_input(&ctx.input);
    ctx.nontrivial = true;
    ctx.label(["whitespace", "whitespace", "whitespace", "comments", "a comment"][how as usize]);
    match (parse(&x)?, parse(&y)?) {
        (Ok(a), Ok(b)) => ensure!(reify_obj(&a).same(&reify_obj(&b)), "the gap changes the meaning to {}", show_mv(&MV::Obj(reify_obj(&b)))),
        (Ok(_), Err(e)) => return Err(format!("rejected: {}", e)),
        (Err(e), _) => return Err(format!("{}the short text is rejected: {}", HARNESS, e)),
    }
    Ok(())
}

/// One whitespace character or comment put in place of another at one spot of a small document.
fn c16_single(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let parts = SHAPES[s.usize(SHAPES.len())];
    let build = |sep: &dyn Fn(usize, bool) -> String| -> String {
        let mut t = sep(0, false);
        let mut k = 1;
        for (i, p) in parts.iter().enumerate() {
            if *p == " " {
                continue;
            }
            t.push_str(p);
            if i + 1 < parts.len() {
                t.push_str(&sep(k, parts[i + 1] == " "));
            } else {
                t.push_str(&sep(k, false));
            }
            k += 1;
        }
        t
    };
    let gaps = parts.iter().filter(|p| **p != " ").count() + 1;
    let at = s.usize(gaps);
    let g = gap(s, Ws::Req, Style::Wild);
    let x = build(&|_, req| if req { " ".into() } else { "".into() });
    let mut y = build(&|i, req| {
        if i == at {
            g.clone()
        } else if req {
            " ".into()
        } else {
            "".into()
        }
    });
    // A comment ending with the text.
    if at == gaps - 1 && y.ends_with('\n') && s.bool() {
        y.pop();
    }
    ctx.input = format!("{}\n---\n{}", x, y);
    ctx.nontrivial = true;
    ctx.label_if(g.contains('#'), "comment");
    c16_compare(&x, &y, ctx)?;
    ensure!(parse(&y)?.is_ok(), "{:?} is rejected", y);
    Ok(())
}
