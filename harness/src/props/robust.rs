//! Properties of the whole: totality, the nesting limit, names, independence of history.

use super::files::{fresh_dir, Cwd, Dir};
use super::*;
use num_bigint::BigInt;
use over::obj::Pair;
use over::value::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::symlink;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            level: "exploration",
            rule: "random token sequences, mutated documents, random bytes and invalid UTF-8, numbers at the limits of machine integers in every place, one short unit repeated up to 100000 times (600000 where it is skipped; signs, operators, digits, dots, names, comments, strings, brackets of every kind, references), chains of up to 200 files, and files which are directories, pipes, devices or missing; each case runs unoptimised on a 4 MB stack with a bound on the steps of the parser, and what loads is compared, displayed, written, read again and dropped. Non-trivial: at least two tokens, 200 repetitions, or two files",
            assumptions: vec![
                "a parser that takes more than the step bound (hundreds of times what any case needs) does not end",
                "documents whose value, written out in full, does not fit in memory (exponential sharing) are outside the property",
            ],
            subs: vec![
                sub("soup", 2_000_000, 40_000_000, c02_soup),
                sub("mutated", 260_000, 5_200_000, c02_mutated),
                sub("bytes", 120_000, 2_400_000, c02_bytes),
                sub("repeat", 9_200, 184_000, c02_repeat),
                sub("edges", 300_000, 6_000_000, c02_edges),
                sub("deep", 150_000, 3_000_000, c02_deep),
                sub("trees", 11_000, 220_000, c02_trees),
                sub("odd_files", 110_000, 2_200_000, c02_odd),
            ],
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "documents which nest 1 to 80 levels, most of them 62 to 67, built inside out from arrays, tuples, objects, parents, variables, globals, paths, concatenations and include files in random mixes, so that the nesting of every part is known. Non-trivial: 60 levels or more",
            assumptions: vec![PURE],
            subs: vec![
                sub("text", 13_000, 260_000, c15_text),
                sub("files", 8_000, 160_000, c15_files),
                sub("uniform", 27_000, 540_000, c15_uniform),
            ],
        },
        Prop {
            id: "C20",
            level: "exploration",
            rule: "names made of valid parts, of any characters, and valid names broken at one place, plus every single character as the first and as a later one; given to the API and written in text as fields, globals and paths. Non-trivial: the name has a character outside a-z or is reserved",
            assumptions: vec![PURE, "alphabetic means char::is_alphabetic"],
            subs: vec![
                sub("api", 2_000_000, 40_000_000, c20_api),
                sub("sweep", 4_800, 20_000, c20_sweep),
                sub("text", 2_000_000, 40_000_000, c20_text),
            ],
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "histories of up to 40 loads of good and bad texts and files, with files rewritten, removed and restored between them, against the reference reader and the first result in the same state; and the same loads from 2 to 8 threads at once against a sequential run. Non-trivial: a source is loaded twice with another load or change between",
            assumptions: vec![PURE, "thread schedules are the ones the operating system produces"],
            subs: vec![sub("history", 59_000, 1_180_000, c22_history), sub("threads", 24_000, 480_000, c22_threads)],
        },
    ]
}

fn harness(e: impl std::fmt::Display) -> String {
    format!("{}{}", HARNESS, e)
}

// --------------------------------------------------------------------------------------------- C02

/// Does everything to an object that could go wrong.
fn exercise(o: Obj, dir: Option<&Dir>) -> CaseResult {
    no_panic(move || {
        let _ = o == o.clone();
        let text = o.write_to_string();
        let _ = o.to_string();
        let _ = format!("{:?}", o).len();
        for Pair(n, v) in o.iter() {
            let _ = v.get_type().to_string();
            let _ = v.to_string();
            let _ = o.get(n);
            let _ = *v == v.clone();
        }
        if let Some(d) = dir {
            let _ = o.write_to_file(&d.str("out.over"));
        }
        if let Ok(r) = Obj::from_str(&text) {
            let _ = r == o;
            let _ = r.write_to_string();
            drop(o);
            drop(r);
        }
    })
    .map_err(|e| format!("using what was loaded: {}", e))
}

fn total(text: &str, ctx: &mut Ctx) -> CaseResult {
    match parse(text)? {
        Ok(o) => {
            ctx.label("object");
            exercise(o, None)
        }
        Err(e) => {
            ctx.label("error");
            no_panic(|| (e.to_string(), format!("{:?}", e), e == e)).map(|_| ())
        }
    }
}

fn total_file(path: &str, dir: &Dir, ctx: &mut Ctx) -> CaseResult {
    match no_panic(|| Obj::from_file(path))? {
        Ok(o) => {
            ctx.label("object");
            exercise(o, Some(dir))
        }
        Err(e) => {
            ctx.label("error");
            no_panic(|| (e.to_string(), format!("{:?}", e), e == e)).map(|_| ())
        }
    }
}

pub fn c02_soup(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut text = soup(s, 60);
    if s.bool() {
        text = format!("x: {}", text);
    }
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = text.chars().count() >= 3;
    total(&text, ctx)
}

fn c02_mutated(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    c.budget = c.budget.min(60);
    let mut g = TG::new(c);
    g.doc(s);
    let n = s.weighted(&[10, 40, 20, 10, 10, 10]);
    for _ in 0..n {
        s.span(|s| mutate_toks(s, &mut g.toks));
    }
    let st = pick_style(s);
    let mut text = render(s, &g.toks, st);
    for _ in 0..s.usize(4) {
        text = s.span(|s| mutate_text(s, &text)).0;
    }
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = text.chars().count() >= 3;
    total(&text, ctx)
}

pub fn random_bytes(s: &mut Src) -> Vec<u8> {
    match s.below(4) {
        0 => s.list(0, 60, |s, _| s.below(256) as u8),
        1 => {
            // A document with bytes put in or taken out.
            let mut b = soup(s, 20).into_bytes();
            for _ in 0..s.range(1, 3) {
                let i = s.usize(b.len() + 1);
                if s.bool() && i < b.len() {
                    b.remove(i);
                } else {
                    b.insert(i, *s.pick(&[0x80, 0xff, 0xc3, 0xe2, 0xf0, 0x00, 0xed]));
                }
            }
            b
        }
        2 => {
            let mut b = s.pick(&["\u{feff}", "\u{feff}a: 1", "a: \"", "a: 1\u{2028}b: 2", "\r", "a:\u{85}1"]).as_bytes().to_vec();
            b.extend(s.list(0, 20, |s, _| s.below(256) as u8));
            b
        }
        _ => soup(s, 40).into_bytes(),
    }
}

pub fn c02_bytes(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = fresh_dir();
    let b = random_bytes(s);
    ctx.input = format!("{:?}", String::from_utf8_lossy(&b));
    publish_input(&ctx.input);
    ctx.nontrivial = b.len() >= 2;
    ctx.label(if String::from_utf8(b.clone()).is_ok() { "UTF-8" } else { "not UTF-8" });
    d.write("b.over", &b)?;
    let p = match s.below(5) {
        0 => {
            ctx.label("whole file");
            d.str("b.over")
        }
        k => {
            ctx.label("included");
            let kind = ["Obj", "Arr", "Tup", "Str"][k as usize - 1];
            d.write("m.over", format!("a: [1]\nx: <{} \"b.over\">\ny: 2", kind).as_bytes())?;
            d.str("m.over")
        }
    };
    total_file(&p, &d, ctx)
}

/// How often to repeat something: `cap` limits what is asked of slow (quadratic) repetitions.
/// A number near a power of two or ten, in some form.
fn edge_number(s: &mut Src, k: usize) -> String {
    let base = if s.chance(1, 3) {
        num_traits::pow(BigInt::from(10), s.usize(45))
    } else {
        let b = if s.bool() { *s.pick(&[0usize, 7, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128]) } else { s.usize(300) };
        BigInt::from(1) << b
    };
    let d = BigInt::from(s.usize(2 * k + 6));
    let n = if s.bool() { base + d - BigInt::from(k) } else { base - d };
    let mut t = n.to_string();
    match s.weighted(&[60, 8, 8, 8, 8, 8]) {
        0 => {}
        1 => t.push_str(&format!(".{}", s.usize(1000))),
        2 => t = format!("{}/{}", t, edge_int(s)),
        3 => t = format!("0.{}{}", "0".repeat(s.usize(70)), t.trim_start_matches('-')),
        4 => t = format!("-{}", t.trim_start_matches('-')),
        _ => t = format!("{}{}", "0".repeat(s.usize(70)), t.trim_start_matches('-')),
    }
    t
}
fn edge_int(s: &mut Src) -> BigInt {
    s.pick(&crate::gen::edge_ints()).clone()
}

/// Numbers at the limits of machine integers in every place where a number may stand.
fn c02_edges(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let k = s.usize(5);
    let n = edge_number(s, k);
    let elems = s.list(k, k, |s, _| s.pick(&["1", "7", "0"]).to_string()).join(" ");
    let (a, b) = *s.pick(&[("[", "]"), ("(", ")")]);
    let seq = format!("{}{}{}", a, elems, b);
    let m = edge_number(s, 0);
    let op = *s.pick(&["+", "-", "*", "/", "%"]);
    let text = match s.below(12) {
        0 => format!("q: {} x: q.{}", seq, n),
        1 => format!("q: {} @i: {} x: q.@i", seq, n),
        2 => format!("q: {} i: {} x: q.i", seq, n),
        3 => format!("@q: {} x: @q.{}", seq, n),
        4 => format!("o: {{q: {}}} x: o.q.{} {} 1", seq, n, op),
        5 => format!("q: {} x: q.{}.{}", seq, n, m),
        6 => format!("x: {} {} {}", n, op, m),
        7 => format!("y: {} x: y {} {} {} y", n, op, m, s.pick(&["+", "-", "*", "/", "%"])),
        8 => format!("x: [{} {}] y: x.0 {} x.1", n, m, op),
        9 => format!("x: {}{}{}", s.pick(&["-", "--", "+-", "-+"]), n, s.pick(&["", " ", "_", ".", "_0", "/1", "%1", "/0", "%0", "%-1", "/-1"])),
        10 => format!("o: {{a: {}}} x: o.{} y: {}.0", n, m, n),
        _ => format!("x: <\"{}\"> y{}: {}", n, m, n),
    };
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = true;
    total(&text, ctx)?;
    // The same limits through the API.
    if let Ok(o) = parse(&format!("q: {} i: {}", seq, n))? {
        no_panic(|| {
            for i in [k.wrapping_sub(1), k, usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 31, 1 << 32] {
                match o.get("q") {
                    Some(Value::Arr(a)) => {
                        let _ = a.get(i).map(|v| v.to_string());
                    }
                    Some(Value::Tup(t)) => {
                        let _ = t.get(i).map(|v| v.to_string());
                    }
                    _ => {}
                }
            }
            if let Some(v) = o.get("i") {
                for w in [i128::MIN, i64::MIN as i128, i32::MIN as i128, -1, 0, u64::MAX as i128] {
                    let _ = v == w as i64;
                    let _ = v == w as u64;
                    let _ = v == w as usize;
                    let _ = v == w as i8;
                    let _ = v == w as f64 as i64;
                }
            }
        })
        .map_err(|e| format!("through the API: {}", e))?;
    }
    Ok(())
}

fn times(s: &mut Src, ctx: &Ctx, cap: usize) -> usize {
    let max = if ctx.tier_thorough { 100_000 } else { 40_000 };
    let top = [300, 3_000, 20_000, max][s.weighted(&[55, 30, 12, 3])];
    s.usize(top.min(cap).max(1)) + 1
}

pub fn c02_repeat(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // Before, unit, after, most repetitions.
    let fixed: [(&str, &str, &str, usize); 70] = [
        ("x: ", "-", "1", 100_000),
        ("x: ", "+", "1", 100_000),
        ("x: ", "-+", "1.5", 100_000),
        ("x: ", "- ", "1", 100_000),
        ("x: ", "-", "", 100_000),
        ("x: ", "-", "true", 100_000),
        ("y: 1 x: ", "-", "y", 100_000),
        ("@y: 1 x: ", "-", "@y", 100_000),
        ("y: [1] x: ", "-", "y.0", 100_000),
        ("x: 1", "+1", "", 100_000),
        ("x: 1", "-1", "", 100_000),
        ("x: 1", "*1", "", 100_000),
        ("x: 1", "%3", "", 100_000),
        ("x: 1", "/1", "", 100_000),
        ("x: 1", "*2", "", 3_000),
        ("x: 1", "/2", "", 600),
        ("x: 1", "+1/3", "", 20_000),
        ("x: 1", "*2+1", "", 20_000),
        ("x: 1", "+-1", "", 50_000),
        ("x: 1", "+", "", 50_000),
        ("x: \"\"", "+\"a\"", "", 8_000),
        ("x: []", "+[1]", "", 1_500),
        ("y: 1 x: y", "+y", "", 40_000),
        ("y: [1] x: y.0", "*y.0", "", 40_000),
        ("y: {z: 1} x: y.z", "-y.z", "", 40_000),
        ("x: ", "9", "", 20_000),
        ("x: ", "0", "", 20_000),
        ("x: 0.", "3", "", 4_000),
        ("x: 1", "_0", "", 10_000),
        ("x: ", "_", "1", 100_000),
        ("x: 1", "_", "", 100_000),
        ("x: 1", ".", "", 100_000),
        ("x: ", ".", "", 100_000),
        ("x: 1", ",", "", 100_000),
        ("y: {z: 1} x: y", ".z", "", 100_000),
        ("y: [1] x: y", ".0", "", 100_000),
        ("y: (1) x: y", ".0", "", 100_000),
        ("y: {z: 1} x: y", ".", "", 100_000),
        ("i: 0 y: [1] x: y", ".i", "", 100_000),
        ("@i: 0 y: [1] x: y", ".@i", "", 100_000),
        ("@i: {z: 1} x: @i", ".z", "", 100_000),
        ("", "a", ": 1", 100_000),
        ("", "_", ": 1", 100_000),
        ("@", "é", ": 1", 100_000),
        ("x: ", "a", "", 100_000),
        ("", "@", "", 100_000),
        ("", "^", ": {}", 100_000),
        ("", ":", "", 100_000),
        ("x", ":", "1", 100_000),
        ("x: \"", "a", "\"", 100_000),
        ("x: \"", "\\n", "\"", 100_000),
        ("x: \"", "\\\\", "", 100_000),
        ("x: \"", "\n", "\"", 100_000),
        ("x: \"", "漢", "", 100_000),
        ("#", "#", "", 100_000),
        ("", "# c\n", "x: 1", 50_000),
        ("x: [", "#\n", "]", 50_000),
        ("x:", "#\n", "1 y: 2", 50_000),
        ("x: {y: 1", "\n#", "\n}", 50_000),
        ("x: 1", "#\n\n", "", 50_000),
        ("x: <", "\t#\n", "Str \"a\">", 50_000),
        ("", "\n", "x: 1", 100_000),
        ("", "\r", "x: 1", 100_000),
        ("x:", " ", "1", 100_000),
        ("x: [", "1 ", "]", 20_000),
        ("x: (", "1 \"a\" ", ")", 8_000),
        ("x: (", "() ", ")", 8_000),
        ("x: [", "{} ", "]", 8_000),
        ("x: [", "[1] [] ", "]", 8_000),
        ("x: <Str \"", "a", "\">", 100_000),
    ];
    let (pre, unit, post, cap) = match s.below(5) {
        0 => {
            ctx.label("random unit");
            let (a, b, c) = (soup(s, 4), s.list(1, 4, |s, _| soup(s, 1)).concat(), soup(s, 4));
            let a = if s.bool() { format!("x: {}", a) } else { a };
            (a, b, c, 4_000)
        }
        1 => {
            ctx.label("numbered");
            // Units that differ, so that nothing is a duplicate.
            let k = s.usize(7);
            let n = times(s, ctx, 3_000);
            let mut t = String::new();
            for i in 0..n {
                t.push_str(&match k {
                    0 => format!("f{}: {}\n", i, i),
                    1 => format!("@f{}: {}\n", i, i),
                    2 if i == 0 => "f0: 1 ".into(),
                    2 => format!("f{}: f{} ", i, i - 1),
                    3 if i == 0 => "@f0: 1 ".into(),
                    3 => format!("@f{}: @f{} ", i, i - 1),
                    4 if i == 0 => "f0: {} ".into(),
                    4 => format!("f{}: {{^: @g{}}} @g{}: f{} ", i, i, i + 1, i),
                    5 if i == 0 => "f0: (1) ".into(),
                    5 => format!("f{}: (f{}) ", i, i - 1),
                    _ if i == 0 => "@f0: {} ".into(),
                    _ => format!("@f{}: {{^: @f{}}} ", i, i - 1),
                });
            }
            if k == 3 || k == 6 {
                t.push_str(&format!("x: @f{}", n - 1));
            }
            if k == 4 {
                t = format!("@g1: {{}} {}", t);
            }
            ctx.input = format!("numbered {}, {} times: {}", k, n, t.chars().take(120).collect::<String>());
            publish_input(&ctx.input);
            ctx.nontrivial = n >= 200;
            return total(&t, ctx);
        }
        _ => {
            let (a, b, c, n) = *s.pick(&fixed);
            (a.to_string(), b.to_string(), c.to_string(), n)
        }
    };
    // What is skipped costs next to nothing.
    let skipped = unit.chars().all(|c| c.is_whitespace()) || unit.starts_with('#');
    let n = if skipped && s.chance(1, 3) {
        s.range(100_000, 600_000)
    } else {
        times(s, ctx, cap).min(100_000 / unit.len().max(1) + 1)
    };
    ctx.input = format!("{:?} + {:?} * {} + {:?}", pre, unit, n, post);
    publish_input(&ctx.input);
    ctx.nontrivial = n >= 200;
    ctx.label_if(n >= 10_000, "10000 times or more");
    let text = format!("{}{}{}", pre, unit.repeat(n), post);
    total(&text, ctx)
}

fn c02_deep(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let open: [(&str, &str); 22] = [
        ("(", ")"),
        ("[", "]"),
        ("{a: ", "}"),
        ("{^: ", "}"),
        ("{@a: ", "}"),
        ("<", ">"),
        ("<Str ", ">"),
        ("<Arr ", ">"),
        ("<Obj <", ">>"),
        ("(1 ", ")"),
        ("( ", " 2)"),
        ("-(", ")"),
        ("-", ""),
        ("1+(", ")"),
        ("[]+[", "]"),
        ("\"a\"+<Str ", ">"),
        ("a.", ""),
        ("@a.", ""),
        ("(a.", ")"),
        ("{a: 1 b: ", " c: 2}"),
        ("[ [] ", "]"),
        ("#(\n(", ")"),
    ];
    let pat: Vec<(&str, &str)> = (0..s.range(1, 3)).map(|_| *s.pick(&open)).collect();
    let n = times(s, ctx, 100_000);
    let mixed = s.bool();
    let core = *s.pick(&["1", "", "{}", "a", "\"s\"", "?", "1.5"]);
    let close = s.weighted(&[50, 20, 15, 15]);
    let mut a = String::from(*s.pick(&["x: ", "", "y: 1 x: ", "x: 1+"]));
    let mut b: Vec<&str> = vec![];
    for i in 0..n {
        let (o, c) = if mixed { *s.pick(&pat) } else { pat[i % pat.len()] };
        a.push_str(o);
        b.push(c);
    }
    a.push_str(core);
    match close {
        0 => b.iter().rev().for_each(|c| a.push_str(c)),
        1 => b.iter().rev().take(n / 2).for_each(|c| a.push_str(c)),
        2 => (0..n).for_each(|_| a.push(')')),
        _ => {}
    }
    ctx.input = format!("{} openings: {}", n, a.chars().take(150).collect::<String>());
    publish_input(&ctx.input);
    ctx.nontrivial = n >= 60;
    ctx.label_if(n >= 10_000, "10000 levels or more");
    total(&a, ctx)
}

fn c02_trees(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = fresh_dir();
    let top = if ctx.tier_thorough { 1_000 } else { 200 };
    let most = [5, 70, top][s.weighted(&[50, 35, 15])];
    let n = s.range(1, most);
    // How each file includes the next.
    let wraps = ["<\"N\">", "<Obj \"N\">", "(<\"N\">)", "{ y: <\"N\"> }", "[<\"N\"> <\"N\">]", "<\"N\">.x", "{^: <\"N\">}", "<\"\"+\"N\">", "<Obj <Str \"N.name\">>"];
    let mix = s.bool();
    let one = *s.pick(&wraps);
    let end = s.usize(9);
    ctx.input = format!("{} files, by {} (mixed: {}), ending {}", n, one, mix, end);
    publish_input(&ctx.input);
    for i in 0..n {
        let w = if mix { *s.pick(&wraps) } else { one };
        // The value doubles each time: not too often.
        let w = if w.starts_with('[') && i >= 8 { wraps[2] } else { w };
        let to = if i + 1 < n {
            format!("f{}", i + 1)
        } else {
            match end {
                0 => "missing".into(),
                1 => format!("f{}", i),
                2 => format!("f{}", s.usize(n)),
                3 => ".".into(),
                4 => "".into(),
                _ => String::new(),
            }
        };
        let t = match end {
            5 if i + 1 == n => "x: 1".to_string(),
            6 if i + 1 == n => "x: ?".to_string(),
            7 if i + 1 == n => "".to_string(),
            8 if i + 1 == n => "x: {x: {x: {x: 1}}} y: [[[[]]]]".to_string(),
            _ => {
                if w.contains(".name") {
                    d.write(&format!("{}.name", if to.is_empty() || to == "." { "e" } else { &to }), to.as_bytes())?;
                }
                let w = if w.contains(".name") && (to.is_empty() || to == ".") { w.replace("N.name", "e.name") } else { w.replace('N', &to) };
                format!("x: {}\nz: 1", w)
            }
        };
        d.write(&format!("f{}", i), t.as_bytes())?;
    }
    ctx.nontrivial = n >= 2;
    ctx.label_if(n > 64, "more than 64 files");
    let p = d.str("f0");
    if s.chance(1, 4) {
        let _cwd = Cwd::enter(d.path());
        return match parse("a: 1 r: <\"f0\">")? {
            Ok(o) => exercise(o, None),
            Err(e) => no_panic(|| e.to_string()).map(|_| ()),
        };
    }
    total_file(&p, &d, ctx)
}

/// Feeds a pipe as long as `done` is not set. Says in `opened` if it was opened for reading.
fn feed(path: std::ffi::CString, bytes: Vec<u8>, done: &AtomicBool, opened: &AtomicBool) {
    while !done.load(Ordering::SeqCst) {
        unsafe {
            let fd = libc::open(path.as_ptr(), libc::O_WRONLY | libc::O_NONBLOCK);
            if fd >= 0 {
                opened.store(true, Ordering::SeqCst);
                // Small enough for the pipe's buffer.
                libc::write(fd, bytes.as_ptr() as *const _, bytes.len());
                libc::close(fd);
            }
        }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
}

pub fn c02_odd(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = fresh_dir();
    fs::create_dir_all(d.path().join("dir/inner")).map_err(harness)?;
    let kinds = [
        "pipe", "directory", "missing", "null", "empty name", "nul byte", "long name", "long path", "broken link", "link loop", "through a file", "root",
        "closing slash", "dots", "text", "huge file",
    ];
    let k = s.usize(kinds.len());
    let mut fifo = None;
    let path = match k {
        0 => {
            let p = std::ffi::CString::new(d.str("pipe")).map_err(harness)?;
            if unsafe { libc::mkfifo(p.as_ptr(), 0o644) } != 0 {
                return Err(harness("mkfifo"));
            }
            fifo = Some(p);
            d.str("pipe")
        }
        1 => d.str("dir"),
        2 => d.str(s.pick(&["nothing", "no/thing", "nothing.over", "..."])),
        3 => "/dev/null".into(),
        4 => String::new(),
        5 => format!("{}\0x", d.str("a")),
        6 => d.str(&"n".repeat(s.range(200, 400))),
        7 => d.str(&"dir/../".repeat(s.range(100, 1500))) + "dir/x",
        8 => {
            symlink("nowhere", d.path().join("l")).map_err(harness)?;
            d.str("l")
        }
        9 => {
            symlink("l2", d.path().join("l1")).map_err(harness)?;
            symlink("l1", d.path().join("l2")).map_err(harness)?;
            d.str("l1")
        }
        10 => {
            d.write("file", b"a: 1")?;
            d.str("file/x")
        }
        11 => s.pick(&["/", "//", "/.", "/.."]).to_string(),
        12 => {
            d.write("file", b"a: 1")?;
            d.str("file") + "/"
        }
        13 => s.pick(&[".", "..", "./", "../..", "./."]).to_string(),
        // More than there is memory or addresses, in a file which takes no space. (AddressSanitizer ends
        // the process when asked for so much.)
        15 if !cfg!(overcheck_asan) => {
            d.write("huge", b"a: 1 ")?;
            let f = fs::OpenOptions::new().write(true).open(d.path().join("huge")).map_err(harness)?;
            // A file system may have its limits.
            let _ = f.set_len(1u64 << s.range(42, 47)).or_else(|_| f.set_len(1 << 42));
            d.str("huge")
        }
        _ => {
            d.write("ok", b"a: 1 b: [2]")?;
            d.str("ok")
        }
    };
    ctx.label(kinds[k]);
    let how = s.usize(6);
    let bytes = random_bytes(s);
    ctx.input = format!("{} ({:?}), {}", kinds[k], path.chars().take(200).collect::<String>(), ["loaded", "included", "included as Str", "included as Arr", "included from text", "written to"][how]);
    publish_input(&ctx.input);
    ctx.nontrivial = true;
    let text = |kind: &str| format!("a: 1 x: <{} \"{}\"> y: 2", kind, path);
    let act = |ctx: &mut Ctx| -> CaseResult {
        match how {
            0 => {
                let _cwd = Cwd::enter(d.path());
                total_file(&path, &d, ctx)
            }
            1 | 2 | 3 => {
                d.write("m.over", text(["Obj", "Str", "Arr"][how - 1]).as_bytes())?;
                total_file(&d.str("m.over"), &d, ctx)
            }
            4 => {
                let _cwd = Cwd::enter(d.path());
                total(&text("Tup"), ctx)
            }
            _ => {
                // Where nothing can be written: never outside the scratch directory.
                let _cwd = Cwd::enter(&d.path().join("dir/inner"));
                if k == 0 || k == 3 || k == 11 {
                    return Ok(());
                }
                let o = Obj::from_pairs(vec![Pair("a".into(), Value::from(1))], None).map_err(|e| e.to_string())?;
                let _ = no_panic(|| o.write_to_file(&path))?;
                Ok(())
            }
        }
    };
    match fifo {
        None => act(ctx),
        Some(p) => {
            let (done, opened) = (AtomicBool::new(false), AtomicBool::new(false));
            let r = std::thread::scope(|t| {
                t.spawn(|| feed(p, bytes, &done, &opened));
                let r = act(ctx);
                done.store(true, Ordering::SeqCst);
                r
            });
            // Without anyone to feed the pipe, opening it would take forever.
            ensure!(!(1..=4).contains(&how) || !opened.load(Ordering::SeqCst), "an include opens a pipe and waits for what it says");
            r
        }
    }
}

// --------------------------------------------------------------------------------------------- C15

/// A document built inside out.
struct Nest {
    /// Definitions made so far (top-level fields and globals) and the deepest of them, in levels of
    /// the document.
    defs: String,
    deepest: usize,
    /// The current expression, its levels, and what it denotes, as far as the builder has to know.
    cur: String,
    n: usize,
    is_obj: bool,
    is_arr: bool,
    /// It names a field of the document, so it cannot stand in an object.
    local: bool,
    /// It or the definitions use names of the document.
    bound: bool,
    fresh: usize,
    grown: u32,
    globals: Vec<String>,
    /// About how large the current value and all definitions are when written out in full.
    size: usize,
    defs_size: usize,
    /// So many shallow neighbours once come before a deep value.
    wide: usize,
}

/// A value which is no container but takes more than one step to read, and the globals it uses (of two levels below the document).
fn scalar_core(s: &mut Src) -> (&'static str, &'static str) {
    match s.below(14) {
        0 => ("", "1+2"),
        1 => ("", "-1"),
        2 => ("", "1.5*2-3"),
        3 => ("", "null"),
        4 => ("", "true"),
        5 => ("", "\"a\"+\"b\""),
        6 => ("@z: ([] 7)\n", "@z.1"),
        7 => ("@z: {a: [7 8]}\n", "@z.a.1"),
        8 => ("@z: {a: {b: 5}}\n", "@z.a.b"),
        9 => ("@z: {a: (7 8)}\n", "@z.a.1"),
        10 => ("@z: {a: (1 2)} @i: 1\n", "@z.a.@i"),
        11 => ("@z: ([] 2)\n", "-@z.1"),
        12 => ("@z: {^: {a: 5}}\n", "@z.a+1"),
        _ => ("@z: {a: [2]}\n", "@z.a.0-@z.a.0"),
    }
}

impl Nest {
    fn new(s: &mut Src) -> Nest {
        let (pre, scalar) = scalar_core(s);
        let (cur, n, is_obj, is_arr) = match s.below(7) {
            0 => ("1", 0, false, false),
            5 | 6 => (scalar, 0, false, false),
            1 => ("[]", 1, false, true),
            2 => ("()", 1, false, false),
            3 => ("{}", 1, true, false),
            _ => ("\"s\"", 0, false, false),
        };
        let wide = match s.weighted(&[60, 20, 12, 8]) {
            0 => 0,
            1 => s.range(2, 20),
            2 => s.range(20, 100),
            _ => s.range(100, 300),
        };
        // A definition and what it is used for go together.
        let used = cur == scalar && !pre.is_empty();
        let (defs, deepest) = if used { (pre.to_string(), 3) } else { (String::new(), 1) };
        Nest { wide, defs, deepest, cur: cur.into(), n, is_obj, is_arr, local: false, bound: used, fresh: 0, grown: 0, globals: if used { vec!["@z".to_string()] } else { vec![] }, size: 1, defs_size: 0 }
    }
    fn name(&mut self) -> usize {
        self.fresh += 1;
        self.fresh
    }
    fn define_global(&mut self) {
        let k = self.name();
        self.defs.push_str(&format!("@g{}: {}\n", k, self.cur));
        self.deepest = self.deepest.max(1 + self.n);
        self.defs_size += self.size;
        self.cur = format!("@g{}", k);
        self.globals.push(self.cur.clone());
        self.local = false;
        self.bound = true;
    }
    fn step(&mut self, s: &mut Src, dir: Option<&Dir>, file: usize, ctx: &mut Ctx) -> CaseResult {
        // Every file's definitions are fields of its value.
        let may_include = dir.is_some() && self.size + 2 * self.defs_size < 2_000;
        let k = s.weighted(&[20, 20, 20, 10, 14, 8, 6, 5, if may_include { 12 } else { 0 }]);
        self.size += 2;
        // Objects see only their own fields and the globals.
        if self.local && (k == 2 || k == 3 || k == 6) {
            self.define_global();
        }
        let small = |s: &mut Src| *s.pick(&["", "", "", "1 ", "\"a\" ", "[] ", "() ", "{} "]);
        if self.wide > 0 && s.chance(1, 12) {
            let (before, after) = if s.chance(3, 4) { (self.wide, s.usize(3)) } else { (s.usize(3), self.wide) };
            if k == 0 && self.is_arr {
                self.cur = format!("[{}{}{}]", "[] ".repeat(before), self.cur, " []".repeat(after));
            } else if k == 1 {
                self.cur = format!("({}{}{})", "1 ".repeat(before), self.cur, " 1".repeat(after));
            } else if k == 2 {
                let fields = |a: &str, n: usize| (0..n).map(|i| format!("{}{}: 1 ", a, i)).collect::<String>();
                self.cur = format!("{{{}f: {} {}}}", fields("e", before), self.cur, fields("g", after));
            }
            if k < 3 && (k > 0 || self.is_arr) {
                ctx.label("many neighbours");
                self.size += self.wide;
                self.wide = 0;
                self.n += 1;
                self.is_obj = k == 2;
                self.is_arr = k == 0;
                return Ok(());
            }
        }
        match k {
            0 => {
                let twice = s.chance(1, 12) && self.grown < 5;
                self.grown += twice as u32;
                self.size *= 1 + twice as usize;
                self.cur = if twice { format!("[{} {}]", self.cur, self.cur) } else { format!("[{}]", self.cur) };
                self.n += 1;
                self.is_obj = false;
                self.is_arr = true;
            }
            1 => {
                let (a, b) = (small(s), small(s));
                let extra = if a.len() > 2 || b.len() > 2 { 1 } else { 0 };
                let extra = if a.starts_with('"') || b.starts_with('"') { if (a.len() > 2 && !a.starts_with('"')) || (b.len() > 2 && !b.starts_with('"')) { 1 } else { 0 } } else { extra };
                self.cur = format!("({}{} {})", a, self.cur, b);
                self.n = 1 + self.n.max(extra);
                self.is_obj = false;
                self.is_arr = false;
            }
            2 => {
                self.cur = match s.below(3) {
                    0 => format!("{{f: {}}}", self.cur),
                    1 => format!("{{e: 1 f: {} g: \"s\"}}", self.cur),
                    _ => format!("{{ f: {}\n}}", self.cur),
                };
                self.n += 1;
                self.is_obj = true;
                self.is_arr = false;
            }
            3 => {
                if !self.is_obj {
                    return self.step(s, dir, file, ctx);
                }
                ctx.label("parent");
                self.cur = if s.bool() { format!("{{^: {}}}", self.cur) } else { format!("{{h: 1 ^: {} k: null}}", self.cur) };
                self.n += 1;
            }
            4 => {
                ctx.label("variable");
                let k = self.name();
                self.defs.push_str(&format!("v{}: {}\n", k, self.cur));
                self.deepest = self.deepest.max(1 + self.n);
                self.defs_size += self.size;
                self.cur = format!("v{}", k);
                self.local = true;
                self.bound = true;
            }
            5 => {
                ctx.label("global");
                self.define_global();
            }
            6 => {
                // Through a path: the levels of what is on the way count for the definition only.
                ctx.label("path");
                let k = self.name();
                let (def, path) = match s.below(3) {
                    0 => (format!("{{h: {}}}", self.cur), "h"),
                    1 => (format!("(7 {})", self.cur), "1"),
                    _ => (format!("[{}]", self.cur), "0"),
                };
                let sign = if s.bool() { "@" } else { "" };
                self.defs_size += self.size;
                self.defs.push_str(&format!("{}p{}: {}\n", sign, k, def));
                self.deepest = self.deepest.max(2 + self.n);
                self.cur = format!("{}p{}.{}", sign, k, path);
                if !sign.is_empty() {
                    self.globals.push(format!("@p{}", k));
                }
                self.local = sign.is_empty();
                self.bound = true;
            }
            7 => {
                if !self.is_arr {
                    return self.step(s, dir, file, ctx);
                }
                ctx.label("concatenation");
                self.cur = if s.bool() { format!("[]+{}", self.cur) } else { format!("{}+[]", self.cur) };
                // Not an operand of anything but another concatenation, which is just as well.
            }
            _ => {
                ctx.label("include");
                let d = dir.expect("HARNESS ERROR: no directory");
                let kind = s.below(3);
                if kind > 0 && !self.bound {
                    let f = format!("s{}", file);
                    d.write(&f, self.cur.as_bytes())?;
                    self.cur = format!("<{} \"{}\">", if kind == 1 { "Arr" } else { "Tup" }, f);
                    self.n += 1;
                    self.is_obj = false;
                    self.is_arr = kind == 1;
                } else {
                    let f = format!("o{}", file);
                    // A global's levels count where it is defined, but are not in the file's value: make
                    // them so, for the levels not to depend on where the file is read first.
                    let shown: String = self.globals.drain(..).enumerate().map(|(i, g)| format!("q{}: {}\n", i, g)).collect();
                    d.write(&f, format!("{}{}x: {}", self.defs, shown, self.cur).as_bytes())?;
                    self.n = self.deepest.max(1 + self.n);
                    self.size += 2 * self.defs_size;
                    self.defs_size = 0;
                    self.defs = String::new();
                    self.deepest = 1;
                    self.cur = format!("<\"{}\">", f);
                    self.is_obj = true;
                    self.is_arr = false;
                    self.local = false;
                    self.bound = false;
                    if self.grown < 5 && s.chance(1, 3) {
                        self.grown += 1;
                        // Seen at another depth first.
                        let k = self.name();
                        self.defs = format!("i{}: {}\n", k, self.cur);
                        self.defs_size = self.size;
                        self.deepest = 1 + self.n;
                        self.bound = true;
                    }
                }
            }
        }
        Ok(())
    }
}

fn c15_run(s: &mut Src, ctx: &mut Ctx, dir: Option<&Dir>) -> CaseResult {
    let target = match s.weighted(&[60, 20, 20]) {
        0 => s.range(62, 67),
        1 => s.range(1, 80),
        _ => s.range(64, 65),
    };
    let mut b = Nest::new(s);
    let mut file = 0;
    let mut globals_in_file = false;
    while b.deepest.max(1 + b.n) < target && file < 400 {
        file += 1;
        let r = s.span(|s| b.step(s, dir, file, ctx));
        r?;
        globals_in_file |= b.cur.len() > 100_000;
        if globals_in_file {
            break;
        }
    }
    let main = format!("{}{}r: {}\nlast: 1", s.pick(&["", "# c\n", "first: [[]]\n"]), b.defs, b.cur);
    let extra = if main.starts_with("first") { 3 } else { 1 };
    let total = b.deepest.max(1 + b.n).max(extra);
    finish(s, ctx, dir, &main, total)
}

/// Loads the document, which nests `total` levels.
fn finish(s: &mut Src, ctx: &mut Ctx, dir: Option<&Dir>, main: &str, total: usize) -> CaseResult {
    ctx.input = format!("{} levels: {}", total, main);
    publish_input(&ctx.input);
    ctx.nontrivial = total >= 60;
    ctx.label(match total {
        64 => "exactly 64",
        65 => "exactly 65",
        x if x < 64 => "fewer than 64",
        _ => "more than 65",
    });
    let v = match dir {
        None => judge(main, ctx, false)?,
        Some(d) => {
            if s.chance(1, 4) {
                let _cwd = Cwd::enter(d.path());
                judge(main, ctx, false)?
            } else {
                d.write("main.over", main.as_bytes())?;
                judge_file(&d.str("main.over"), ctx, false)?
            }
        }
    };
    match (&v.want, total <= 64) {
        (Outcome::Ok(_), true) => {}
        (Outcome::Err(e), false) if e.what == "too deep" => {}
        (o, _) => {
            let o = format!("{:?}", o).chars().take(300).collect::<String>();
            return Err(format!("{}the builder counts {} levels, the reference reader says {}: {}", HARNESS, total, o, main));
        }
    }
    match v.got {
        Some(Ok(o)) => {
            ensure!(total <= 64, "{} levels are accepted", total);
            let text = o.write_to_string();
            let r = Obj::from_str(&text).map_err(|e| format!("{} levels are accepted, but what is written of them is rejected: {}", total, e))?;
            ensure!(r == o, "{} levels are accepted, but what is written of them is read as something else", total);
            Ok(())
        }
        Some(Err(e)) => {
            ensure!(total > 64, "{} levels are rejected: {}", total, e);
            Ok(())
        }
        None => Ok(()),
    }
}

fn c15_text(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c15_run(s, ctx, None)
}
fn c15_files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = fresh_dir();
    c15_run(s, ctx, Some(&d))
}

/// One way of nesting, all the way.
fn c15_uniform(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let k = s.usize(12);
    let most = if (7..=9).contains(&k) { 80 } else { 300 };
    let total = if s.chance(3, 4) { s.range(62, 67) } else { s.range(2, most) };
    // Levels below the document.
    let n = total - 1;
    let d = fresh_dir();
    ctx.label(
        [
            "arrays", "tuples", "objects", "parents", "alternating", "variables", "globals", "includes", "tuple includes", "array includes", "text include", "parent variables",
        ][k],
    );
    let (pre, scalar) = if n >= 3 && s.chance(1, 2) { scalar_core(s) } else { ("", "") };
    let wrap = |open: &str, core: &str, close: &str, n: usize| format!("{}r: {}{}{}", pre, open.repeat(n), core, close.repeat(n));
    let wide = if s.chance(1, 4) { s.range(5, 300) } else { 0 };
    let main = match k {
        _ if wide > 0 && k <= 3 && n >= 3 => {
            // All but one of many values are shallow.
            ctx.label("many neighbours");
            let deep = match k {
                0 => format!("{}{}", "[".repeat(n), "]".repeat(n)),
                1 => format!("{}{}", "(".repeat(n), ")".repeat(n)),
                2 => format!("{}1{}", "{a: ".repeat(n), "}".repeat(n)),
                _ => format!("{}{{}}{}", "{^: ".repeat(n - 1), "}".repeat(n - 1)),
            };
            let at = s.usize(wide);
            (0..wide).map(|i| format!("r{}: {}\n", i, if i == at { deep.as_str() } else { *s.pick(&["1", "()", "[[]]"]) })).collect()
        }
        0 => wrap("[", scalar, "]", n),
        1 => wrap("(", scalar, ")", n),
        2 => wrap("{a: ", if scalar.is_empty() { "1" } else { scalar }, "}", n),
        3 => wrap("{^: ", "{}", "}", n - 1),
        4 => {
            let mut t = String::from("r: ");
            let c = ["(", "[", "{a: "];
            for i in 0..n {
                t.push_str(c[i % 3]);
            }
            t.push('1');
            for i in (0..n).rev() {
                t.push_str([")", "]", "}"][i % 3]);
            }
            t
        }
        5 | 6 => {
            let g = if k == 6 { "@" } else { "" };
            let mut t = format!("{}v0: 1\n", g);
            for i in 1..=n {
                let (a, b) = *s.pick(&[("[", "]"), ("(", ")"), if k == 6 { ("{a: ", "}") } else { ("(1 ", ")") }]);
                t.push_str(&format!("{}v{}: {}{}v{}{}\n", g, i, a, g, i - 1, b));
            }
            t.push_str(&format!("r: {}v{}", g, n));
            t
        }
        7 => {
            for i in 1..=n {
                let t = if i == n { "x: 1".to_string() } else { format!("x: <\"f{}\">", i + 1) };
                d.write(&format!("f{}", i), t.as_bytes())?;
            }
            "r: <\"f1\">".into()
        }
        8 | 9 => {
            let kind = if k == 8 { "Tup" } else { "Arr" };
            for i in 1..=n {
                let t = if i == n { "1".to_string() } else { format!("<{} \"f{}\">", kind, i + 1) };
                d.write(&format!("f{}", i), t.as_bytes())?;
            }
            format!("r: <{} \"f1\">", kind)
        }
        10 => {
            // A file read as text is a level, too.
            d.write("s", b"text")?;
            wrap("[", "<Str \"s\">", "]", n - 1)
        }
        _ => {
            let mut t = "@v1: {}\n".to_string();
            let fields = *s.pick(&[1, 1, 3, 9, 20, 70]);
            ctx.label_if(fields > 8, "many fields each");
            for i in 2..=n {
                let own: String = (0..fields).map(|j| format!("f{}_{}: {} ", i, j, j)).collect();
                t.push_str(&format!("@v{}: {{{}^: @v{}}}\n", i, own, i - 1));
            }
            t.push_str(&format!("r: @v{}", n));
            t
        }
    };
    finish(s, ctx, Some(&d), &main, total)
}

// --------------------------------------------------------------------------------------------- C20

fn any_name(s: &mut Src) -> String {
    match s.weighted(&[20, 10, 30, 20, 10, 10]) {
        0 => gen_name(s),
        1 => s.pick(&RESERVED).to_string(),
        2 => {
            // A valid name broken (or not) at one place.
            let mut n: Vec<char> = gen_name(s).chars().collect();
            let i = s.usize(n.len() + 1);
            let c = match s.below(3) {
                0 => gen_char(s),
                1 => *s.pick(&['^', '@', '.', '-', '+', '0', '9', '_', '\'', '$', ' ', ':', '#', '"', '{', '\u{301}', '\u{660}', '²', 'Ⅷ', '\u{200d}', '½', '\n', '\0']),
                _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
            };
            if s.bool() || i == n.len() {
                n.insert(i, c);
            } else {
                n[i] = c;
            }
            n.into_iter().collect()
        }
        3 => s.list(0, 4, |s, _| char::from_u32(s.below(0x11_0000) as u32).unwrap_or('a')).into_iter().collect(),
        4 => s.list(0, 6, |s, _| gen_char(s)).into_iter().collect(),
        _ => s.pick(&["", "^", "@", "^a", "a^", "@a", "a@", "1", "1a", "-a", "a-b", "a.b", ".a", "a.", " a", "a ", "_", "__", "^^", "^_", "é", "é1", "1é"]).to_string(),
    }
}

fn check_api_name(n: &str) -> CaseResult {
    let want = valid_name(n);
    ensure!(Obj::is_valid_field(n) == want, "is_valid_field({:?}) is not {}", n, want);
    Ok(())
}

fn c20_api(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut names: Vec<String> = vec![];
    let most = if s.chance(1, 10) { 60 } else { 8 };
    let fine = if s.chance(1, 3) { 30 } else { 2 };
    for n in s.list(1, most, |s, _| if s.chance(fine, fine + 1) { gen_name(s) } else { any_name(s) }) {
        if !names.contains(&n) {
            names.push(n);
        }
    }
    ctx.input = format!("{:?}", names);
    let bad: Vec<&String> = names.iter().filter(|n| !valid_name(n)).collect();
    ctx.nontrivial = names.iter().any(|n| n.chars().any(|c| !c.is_ascii_lowercase()));
    ctx.label(match bad.len() {
        0 => "all valid",
        1 => "one invalid",
        _ => "several invalid",
    });
    for n in &names {
        check_api_name(n)?;
    }
    let pairs: Vec<Pair> = names.iter().enumerate().map(|(i, n)| Pair(n.clone(), Value::from(i as i64))).collect();
    let mut odd_parent = false;
    // What the parent has says nothing about the object's own names, even if nobody checked it.
    let parent = match s.below(4) {
        0 | 1 => None,
        2 => Some(Obj::from_pairs(vec![Pair("p".into(), Value::Null)], None).map_err(|e| e.to_string())?),
        _ => {
            let mut of: Vec<Pair> = names.iter().enumerate().filter(|_| s.bool()).map(|(i, n)| Pair(n.clone(), Value::from(i as i64))).collect();
            let more = any_name(s);
            if s.chance(1, 4) && !names.contains(&more) {
                of.push(Pair(more, Value::Null));
            }
            ctx.label_if(of.iter().any(|p| !valid_name(&p.0)), "a parent with an invalid name");
            odd_parent = of.iter().any(|p| !valid_name(&p.0) || reserved(&p.0));
            Some(Obj::from_pairs_unchecked(of, None))
        }
    };
    match Obj::from_pairs(pairs, parent) {
        Ok(o) => {
            ensure!(bad.is_empty(), "an object with the fields {:?} is built", bad);
            for (i, n) in names.iter().enumerate() {
                ensure!(o.get(n) == Some(Value::from(i as i64)) && o.contains(n), "field {:?} is {:?}", n, o.get(n));
            }
            ensure!(o.len() == names.len(), "{} fields instead of {}", o.len(), names.len());
            if !odd_parent && !names.iter().any(|n| reserved(n)) {
                let r = Obj::from_str(&o.write_to_string()).map_err(|e| format!("valid names are rejected in the text written: {}", e))?;
                let back: Vec<String> = r.iter().map(|Pair(n, _)| n.clone()).collect();
                ensure!(back == names, "the names are read back as {:?}", back);
            }
            Ok(())
        }
        Err(OverError::InvalidFieldName(n)) => {
            ensure!(!bad.is_empty(), "valid names are rejected, naming {:?}", n);
            ensure!(bad.contains(&&n), "the error names {:?}, which is not one of {:?}", n, bad);
            Ok(())
        }
        Err(e) => Err(format!("the error is {:?}", e)),
    }
}

/// What the text says about a name.
fn check_text_name(n: &str, ctx: &mut Ctx) -> CaseResult {
    let valid = valid_name(n);
    let one = Value::from(1);
    // As a field.
    let t = format!("a0: 7\n{}: 1\nz0: 8", n);
    judge(&t, ctx, false)?;
    if valid && n != "a0" && n != "z0" {
        match (reserved(n), parse(&t)?) {
            (false, Ok(o)) => {
                let names: Vec<String> = o.iter().map(|Pair(n, _)| n.clone()).collect();
                ensure!(names == ["a0", n, "z0"] && o.get(n) == Some(one.clone()), "the field {:?} is read as {:?}", n, names);
            }
            (false, Err(e)) => return Err(format!("the field name {:?} is rejected: {}", n, e)),
            (true, Err(_)) => {}
            (true, Ok(_)) => return Err(format!("the reserved word {:?} is accepted as a field", n)),
        }
    }
    // As a global.
    let t = format!("@{}: 1\nr: @{} ", n, n);
    judge(&t, ctx, false)?;
    if valid {
        let o = parse(&t)?.map_err(|e| format!("the global name {:?} is rejected: {}", n, e))?;
        ensure!(o.len() == 1 && o.get("r") == Some(one.clone()), "the global {:?} is not read as such: {:?}", n, o);
    }
    // As a variable and on a path.
    if valid && !reserved(n) && n != "r" && n != "q" {
        let t = format!("{}: {{{}: 1}} r: {} q: {}.{} ", n, n, n, n, n);
        let o = parse(&t)?.map_err(|e| format!("the name {:?} is rejected: {}", n, e))?;
        ensure!(o.get("q") == Some(one) && o.get("r") == o.get(n), "the variable {:?} is read as {:?}", n, o);
    }
    // Nothing but these names can stand before a colon, unless the text means something else.
    let structural = |c: char| c.is_whitespace() || c == '#' || c == ':';
    if !valid && !n.starts_with('@') && !n.chars().any(structural) {
        for t in [format!("{}: 1", n), format!("{}: {{}}", n), format!("x: {{ {}: 1 }}", n), format!("b1: 1 {}: 2", n)].iter() {
            if n == "^" && !t.ends_with("1") && !t.ends_with("2") {
                continue;
            }
            // `}: 1` and the like end the object.
            if n == "^" && t.contains("x: {") {
                continue;
            }
            if let Ok(o) = parse(t)? {
                return Err(format!("the invalid name {:?} is accepted: {:?} is read as {:?}", n, t, o));
            }
        }
        let t = format!("@{}: 1", n);
        if let Ok(o) = parse(&t)? {
            return Err(format!("the invalid global name {:?} is accepted: {:?}", n, o));
        }
    }
    Ok(())
}

fn c20_sweep(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // A block of the code space.
    let block = s.below(0x11_0000 / 0x400) as u32 * 0x400;
    ctx.input = format!("U+{:04X}..U+{:04X}", block, block + 0x400);
    ctx.nontrivial = true;
    for u in block..block + 0x400 {
        let c = match char::from_u32(u) {
            Some(c) => c,
            None => continue,
        };
        for n in [c.to_string(), format!("a{}", c), format!("{}a", c), format!("a{}b", c), format!("_{}", c)].iter() {
            check_api_name(n)?;
        }
    }
    for _ in 0..12 {
        if let Some(c) = char::from_u32(block + s.below(0x400) as u32) {
            check_text_name(&c.to_string(), ctx)?;
            check_text_name(&format!("a{}", c), ctx)?;
            check_text_name(&format!("a{}b", c), ctx)?;
        }
    }
    Ok(())
}

fn c20_text(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = any_name(s);
    ctx.input = format!("{:?}", n);
    ctx.nontrivial = reserved(&n) || n.chars().any(|c| !c.is_ascii_lowercase());
    ctx.label(if valid_name(&n) { "valid" } else { "invalid" });
    check_text_name(&n, ctx)
}

// --------------------------------------------------------------------------------------------- C22

/// What came of a load: the text written, or the error.
fn result_text(r: &Result<Obj, OverError>) -> String {
    match r {
        Ok(o) => format!("ok {}", o.write_to_string()),
        Err(e) => format!("error {:?} {}", e, e),
    }
}

fn small_doc(s: &mut Src, includes: Vec<Inc>) -> String {
    let mut c = Cfg::basic(s);
    c.budget = [4, 10, 25][s.usize(3)];
    c.includes = includes;
    c.globals = 6;
    let mut g = TG::new(c);
    g.doc(s);
    if s.chance(1, 3) {
        for _ in 0..s.range(1, 2) {
            mutate_toks(s, &mut g.toks);
        }
    }
    let st = pick_style(s);
    render(s, &g.toks, st)
}

#[derive(Clone)]
enum Source {
    Text(String),
    File(String),
}

impl Source {
    fn load(&self) -> Result<Result<Obj, OverError>, String> {
        no_panic(|| match self {
            Source::Text(t) => Obj::from_str(t),
            Source::File(p) => Obj::from_file(p),
        })
    }
}

pub const FILES: [&str; 6] = ["a.over", "b.over", "sub/c.over", "sub/d.over", "e.txt", "ln/f.over"];

/// Contents for one of the files, which may include others (and so make cycles).
pub fn file_text(s: &mut Src, d: &Dir, i: usize) -> String {
    match s.weighted(&[25, 45, 10, 10, 10]) {
        0 => small_doc(s, vec![]),
        1 => {
            let mut t = String::new();
            for k in 0..s.range(1, 4) {
                // Mostly files that come later.
                let j = if i + 1 < FILES.len() && s.chance(5, 6) { s.range(i + 1, FILES.len() - 1) } else { s.usize(FILES.len()) };
                let p = if s.bool() { d.str(FILES[j]) } else { format!("{}{}", if matches!(i, 2 | 3 | 5) { "../" } else { "" }, FILES[j]) };
                let kind = *s.pick(&["", "", "", "Obj ", "Str ", "Tup ", "Arr "]);
                t.push_str(&format!("k{}: <{}\"{}\">\n", k, kind, p));
            }
            t
        }
        2 => s.pick(&["1 2 3", "[1] [2]", "", "\"s\""]).to_string(),
        3 => format!("v: {} w: v", s.below(1000)),
        _ => s.pick(&["x: ", "x: nope", "x: 1/0", "x: 1 x: 2", "@g: 1 r: @g", "r: @g", "x: \"\\q\"", "}", "?"]).to_string(),
    }
}

struct Sources {
    dir: Dir,
    list: Vec<Source>,
    log: String,
}

fn sources(s: &mut Src) -> Result<Sources, String> {
    let dir = fresh_dir();
    let mut log = String::new();
    // "ln" leads to one of two directories.
    for d in ["two", "one"] {
        fs::create_dir_all(dir.path().join(d)).map_err(harness)?;
        dir.write(&format!("{}/f.over", d), format!("in: \"{}\"", d).as_bytes())?;
    }
    std::os::unix::fs::symlink(dir.path().join("one"), dir.path().join("ln")).map_err(harness)?;
    for (i, f) in FILES.iter().enumerate() {
        let t = file_text(s, &dir, i);
        dir.write(f, t.as_bytes())?;
        log.push_str(&format!("--- {}\n{}\n", f, t));
    }
    let mut list = vec![];
    for i in 0..s.range(1, 5) {
        let t = match s.below(4) {
            0 => format!("p: <\"{}\"> q: <{}\"{}\">", dir.str(s.pick(&FILES)), s.pick(&["", "Str ", "Tup "]), dir.str(s.pick(&FILES))),
            1 => file_text(s, &dir, 0),
            _ => small_doc(s, vec![]),
        };
        log.push_str(&format!("--- text {}\n{}\n", i, t));
        list.push(Source::Text(t));
    }
    for f in FILES.iter() {
        if s.bool() {
            list.push(Source::File(dir.str(f)));
        }
    }
    if s.chance(1, 3) {
        // What these are depends on the working directory.
        for t in ["p: <\"f.over\">", "p: <Str \"f.over\"> q: <\"../two/f.over\">"] {
            log.push_str(&format!("--- text {}\n{}\n", list.len(), t));
            list.push(Source::Text(t.into()));
        }
        list.push(Source::File("f.over".into()));
        list.push(Source::File("../ln/f.over".into()));
    }
    Ok(Sources { dir, list, log })
}

thread_local! {
    /// Results of documents that are the same in every case.
    static ALWAYS: RefCell<BTreeMap<usize, String>> = RefCell::new(BTreeMap::new());
}
const CONSTANT: [&str; 10] = [
    "a: 1 b: [1 2] c: (1 \"x\" {d: 2.5}) ^: {z: null}",
    "a: -1/3 b: a * 2 c: {^: {x: 1}} d: c.x",
    "@g: {x: [1 2]} r: @g.x.1 @h: 2",
    "r: @h",
    "r: a",
    "x: [1 \"a\"]",
    "x: 1 x: 2",
    "x: 1/0",
    "x: \"\\q\"",
    "x: <\"/no/such/file\">",
];

fn c22_constant() -> CaseResult {
    for (i, t) in CONSTANT.iter().enumerate() {
        let got = result_text(&parse(t)?);
        let first = ALWAYS.with(|m| m.borrow_mut().entry(i).or_insert_with(|| got.clone()).clone());
        ensure!(first == got, "{:?} gave {:?} when it was loaded first, now {:?}", t, first, got);
    }
    Ok(())
}

/// Words in the code under test which may be names of environment variables.
fn env_names() -> &'static Vec<String> {
    static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    NAMES.get_or_init(|| {
        let plain = |t: &&String| t.len() > 1 && t.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit());
        crate::dict::dict().strings.iter().filter(plain).cloned().collect()
    })
}
/// Variables that were set, and what they were before.
struct Env(Vec<(String, Option<std::ffi::OsString>)>);
impl Env {
    fn set(&mut self, name: String, value: String) {
        let old = std::env::var_os(&name);
        std::env::set_var(&name, value);
        self.0.push((name, old));
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        while let Some((n, v)) = self.0.pop() {
            match v {
                Some(v) => std::env::set_var(n, v),
                None => std::env::remove_var(n),
            }
        }
    }
}

fn c22_history(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut w = sources(s)?;
    let most = [10, 25, 40][s.weighted(&[50, 35, 15])];
    let steps = s.range(2, most);
    // What each source gave in the current state of the files.
    let mut seen: BTreeMap<usize, String> = BTreeMap::new();
    // What was loaded, and what it was then.
    let mut kept: Vec<(Obj, String, Rc<MObj>)> = vec![];
    let mut loads = vec![0u32; w.list.len()];
    let (mut good, mut bad) = (false, false);
    c22_constant()?;
    let here = std::env::current_dir().map_err(harness)?;
    let _back = super::files::Cwd::enter(&here);
    let mut env = Env(vec![]);
    for _ in 0..steps {
        let mut line = String::new();
        let r = s.span(|s| -> CaseResult {
            match s.weighted(&[80, 14, 3, 3, 4, 5, 5]) {
                6 => {
                    // What the environment says does not matter.
                    let name = match env_names() {
                        l if l.is_empty() || s.chance(1, 3) => s.pick(&["HOME", "PWD", "LANG", "LC_ALL", "TMPDIR", "OVER", "DEBUG"]).to_string(),
                        l => s.pick(l).clone(),
                    };
                    let to = s.pick(&["one", "two", "none", "."]);
                    let value = match s.below(4) {
                        0 => s.pick(&["1", "", "de_DE.UTF-8", "/", "true"]).to_string(),
                        1 => to.to_string(),
                        _ => w.dir.str(to),
                    };
                    line = format!("{}={}; ", name, value);
                    env.set(name, value);
                }
                5 => {
                    let to = *s.pick(&["one", "two", "ln", "."]);
                    line = format!("go to {}; ", to);
                    let at = w.dir.path().join(to);
                    if at.is_dir() {
                        std::env::set_current_dir(at).map_err(harness)?;
                    }
                    seen.clear();
                }
                4 => {
                    let to = *s.pick(&["one", "two"]);
                    line = format!("ln leads to {}; ", to);
                    let at = w.dir.path().join("ln");
                    let _ = fs::remove_file(&at);
                    std::os::unix::fs::symlink(w.dir.path().join(to), &at).map_err(harness)?;
                    seen.clear();
                }
                0 => {
                    let k = s.usize(w.list.len());
                    line = format!("load {}; ", k);
                    let src = w.list[k].clone();
                    let want = match &src {
                        Source::Text(t) => refparse::read_text(t),
                        Source::File(p) => refparse::read_file(p),
                    };
                    let got = src.load()?;
                    let t = result_text(&got);
                    if let Some(old) = seen.get(&k) {
                        ensure!(*old == t, "source {} gave {:?} before, now {:?}", k, old, t);
                    }
                    seen.insert(k, t.clone());
                    loads[k] += 1;
                    match (want, got) {
                        (Outcome::Ok(m), Ok(o)) => {
                            good = true;
                            cmp_obj(&m, &o).map_err(|e| format!("source {} is not what its files say now: {}", k, e))?;
                            if kept.len() < 12 {
                                kept.push((o, t, m));
                            }
                        }
                        (Outcome::Ok(_), Err(e)) => return Err(format!("source {} is well-formed now, but is rejected: {}", k, e)),
                        (Outcome::Err(e), Ok(_)) => return Err(format!("source {} is ill-formed now ({:?}), but is accepted", k, e)),
                        (Outcome::Err(_), Err(_)) => bad = true,
                        (Outcome::Unspec(_), _) => {}
                    }
                }
                1 => {
                    let i = s.usize(FILES.len());
                    let t = file_text(s, &w.dir, i);
                    line = format!("write {} {:?}; ", FILES[i], t);
                    w.dir.write(FILES[i], t.as_bytes())?;
                    seen.clear();
                }
                2 => {
                    let i = s.usize(FILES.len());
                    line = format!("remove {}; ", FILES[i]);
                    let _ = fs::remove_file(w.dir.path().join(FILES[i]));
                    seen.clear();
                }
                _ => {
                    // Put one file in the place of another.
                    let (i, j) = (s.usize(FILES.len()), s.usize(FILES.len()));
                    line = format!("move {} to {}; ", FILES[i], FILES[j]);
                    let _ = fs::rename(w.dir.path().join(FILES[i]), w.dir.path().join(FILES[j]));
                    seen.clear();
                }
            }
            Ok(())
        });
        w.log.push_str(&line);
        ctx.input = w.log.clone();
        publish_input(&ctx.input);
        r?;
    }
    ctx.nontrivial = loads.iter().any(|n| *n >= 2);
    ctx.label_if(good && bad, "good and bad loads");
    for (o, t, m) in &kept {
        let now = format!("ok {}", o.write_to_string());
        ensure!(now == *t, "an object loaded earlier changed from {:?} to {:?}", t, now);
        cmp_obj(m, o).map_err(|e| format!("an object loaded earlier changed: {}", e))?;
    }
    c22_constant()
}

fn c22_threads(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let w = sources(s)?;
    ctx.input = w.log.clone();
    publish_input(&ctx.input);
    let before: Vec<Result<Obj, OverError>> = w.list.iter().map(|x| x.load()).collect::<Result<_, _>>()?;
    let texts: Vec<String> = before.iter().map(result_text).collect();
    ctx.nontrivial = before.iter().any(|r| r.is_ok());
    ctx.label_if(before.iter().any(|r| r.is_ok()) && before.iter().any(|r| r.is_err()), "good and bad loads");
    let plans: Vec<Vec<usize>> = (0..s.range(2, 8)).map(|_| (0..s.range(1, 20)).map(|_| s.usize(w.list.len())).collect()).collect();
    let (list, before, texts_) = (&w.list, &before, &texts);
    let results: Vec<CaseResult> = std::thread::scope(|t| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                t.spawn(move || -> CaseResult {
                    over::verif::set_fuel(FUEL);
                    for k in plan {
                        let got = list[*k].load()?;
                        let now = result_text(&got);
                        ensure!(now == texts_[*k], "source {} gives {:?} in a thread, {:?} alone", k, now, texts_[*k]);
                        match (&got, &before[*k]) {
                            (Ok(a), Ok(b)) => ensure!(a == b && b == a, "source {} gives an unequal object in a thread", k),
                            _ => {}
                        }
                        // Reading what others read too.
                        if let Ok(b) = &before[*k] {
                            let read = format!("ok {}", b.clone().write_to_string());
                            ensure!(read == texts_[*k], "an object read from several threads is {:?} there, was {:?}", read, texts_[*k]);
                            for Pair(n, v) in b.iter() {
                                ensure!(b.get(n).as_ref() == Some(v), "a field read from several threads differs: {}", n);
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("{}thread", HARNESS)))).collect()
    });
    for r in results {
        r?;
    }
    for (r, t) in before.iter().zip(&texts) {
        let now = result_text(r);
        ensure!(now == *t, "an object read from several threads changed from {:?} to {:?}", t, now);
    }
    Ok(())
}
