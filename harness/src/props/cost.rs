//! What loading and using values costs: memory, and steps of the parser.

use super::*;
use crate::alloc::{usage, Usage};
use over::value::Value;
use std::fs;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        level: "exploration",
        rule: "a document made of one random piece repeated n and 8n times (elements, fields, globals, heirs of one object, uses of a variable, includes, terms, signs, digits, characters of strings, names and comments; valid, or with a fault at its end), at any depth; what it costs to load, write, display and compare the one and the other; and a container of size k used m times. Non-trivial: the larger text has at least 10 000 characters",
        assumptions: vec!["costs are the memory asked of the allocator and the characters the parser takes or looks at; time is not measured"],
        subs: vec![sub("scale", 6_000, 120_000, c33_scale), sub("share", 20_000, 400_000, c33_share)],
    }]
}

fn harness(e: impl std::fmt::Display) -> String {
    format!("{}{}", HARNESS, e)
}

/// How many times as much the larger one has.
const TIMES: usize = 8;
/// How many times as much the larger one may cost: buffers that double make it a little more.
const MOST: isize = 12;
/// What may come on top in any case.
const SLACK: isize = 100_000;

/// Bytes or steps per character read and written: five times what was seen at most, or more.
const ABSOLUTE: [(&str, isize); 14] = [
    ("peak memory of loading", 500),
    ("allocations of loading", 1_000),
    ("memory kept by what is loaded", 250),
    ("peak memory of writing", 40),
    ("allocations of writing", 600),
    ("memory kept by writing", 10),
    ("peak memory of displaying", 40),
    ("allocations of displaying", 600),
    ("memory kept by displaying", 10),
    ("peak memory of comparing", 20),
    ("allocations of comparing", 100),
    ("memory kept by comparing", 1),
    ("memory kept by reading", 1),
    ("steps of the parser", 30),
];

fn steps<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let before = over::verif::fuel();
    let r = f();
    (r, (before - over::verif::fuel()) as isize)
}

/// What a document costs, by what is done.
struct Costs {
    len: isize,
    list: Vec<(&'static str, isize)>,
    ok: bool,
}

fn costs(text: &str, totals: bool) -> Result<Costs, String> {
    let mut list = vec![];
    let mut note = |what: [&'static str; 3], u: Usage| {
        list.push((what[0], u.peak));
        if totals {
            list.push((what[1], u.total));
        }
        list.push((what[2], u.kept));
    };
    let ((r, u), n) = steps(|| usage(|| no_panic(|| Obj::from_str(text))));
    let r = r?;
    note(["peak memory of loading", "allocations of loading", "memory kept by what is loaded"], u);
    let ok = r.is_ok();
    let mut size = text.len() as isize;
    if let Ok(o) = &r {
        let (w, u) = usage(|| no_panic(|| o.write_to_string()));
        let w = w?;
        size += w.len() as isize;
        note(["peak memory of writing", "allocations of writing", "memory kept by writing"], u);
        let (d, u) = usage(|| no_panic(|| o.to_string()));
        d?;
        note(["peak memory of displaying", "allocations of displaying", "memory kept by displaying"], u);
        let other = parse(text)?.map_err(|e| e.to_string())?;
        let (e, u) = usage(|| no_panic(|| *o == other));
        ensure!(e?, "loaded twice, it is not equal");
        note(["peak memory of comparing", "allocations of comparing", "memory kept by comparing"], u);
        let (g, u) = usage(|| {
            no_panic(|| {
                let mut n = 0;
                for over::obj::Pair(f, _) in o.iter().take(50) {
                    n += o.get(f).map_or(0, |v| if v.is_null() { 0 } else { 1 });
                }
                n
            })
        });
        g?;
        list.push(("memory kept by reading", u.kept));
        // A copy of a container is another reference to it.
        for over::obj::Pair(f, v) in o.iter().take(5) {
            if let Value::Arr(_) | Value::Tup(_) | Value::Obj(_) = v {
                let (c, u) = usage(|| v.clone());
                drop(c);
                ensure!(u.total < 100, "copying the container {} allocates {} bytes", f, u.total);
            }
        }
        drop(w);
    }
    list.push(("steps of the parser", n));
    Ok(Costs { len: size, list, ok })
}

/// A piece of text which is a value, without references.
fn piece(s: &mut Src) -> String {
    let mut c = Cfg::basic(s);
    c.refs = 0;
    c.exprs = 0;
    c.globals = 0;
    c.includes = vec![];
    c.budget = c.budget.min(12);
    c.wide = 0;
    c.max_depth = c.max_depth.min(6);
    let mut g = TG::new(c);
    g.value(s, Ws::Opt, &vec![], 1, None);
    let st = pick_style(s);
    let t = render(s, &g.toks, st);
    if t.len() > 400 {
        "[(1 \"a\")]".into()
    } else {
        t
    }
}

struct Shape {
    name: &'static str,
    /// Before, every time (`%` is the number), after.
    pre: String,
    unit: String,
    post: String,
    totals: bool,
    /// At most this many times, the first time.
    most: usize,
    /// How much one of them is when written.
    weight: usize,
}

fn shape(s: &mut Src) -> Shape {
    let u = piece(s);
    let k = s.below(25);
    let mk = |name, pre: &str, unit: &str, post: &str| Shape { name, pre: pre.into(), unit: unit.into(), post: post.into(), totals: true, most: 100_000, weight: unit.len() };
    let mut sh = match k {
        0 => mk("array", "x: [", &format!("{}\n", u), "]"),
        1 => mk("tuple", "x: (", &format!("{}\n", u), ")"),
        2 => Shape { most: 400, ..mk("fields", "", &format!("f%: {}\n", u), "") },
        3 => mk("globals", "", &format!("@f%: {}\n", u), "x: 1"),
        4 => Shape { most: 400, ..mk("fields below", "x: {", &format!("f%: {}\n", u), "}") },
        5 => Shape { weight: 4 * u.len(), ..mk("uses", &format!("y: {}\nx: [", u), "y ", "]") },
        6 => Shape { weight: 4 * u.len(), ..mk("uses in a tuple", &format!("y: {}\nx: (", u), "y ", ")") },
        7 => Shape { weight: 4 * u.len(), ..mk("uses of a global", &format!("@y: {}\nx: [", u), "@y ", "]") },
        8 => Shape { weight: 4 * u.len(), ..mk("uses of a field", &format!("y: {{z: {} a: 1}} x: [", u), "y.z ", "]") },
        9 => Shape { weight: 4 * u.len(), ..mk("uses of an element", &format!("y: ({}\n) x: [", u), "y.0 ", "]") },
        10 => {
            let c = gen_char(s).to_string();
            let q = quote(s, &c);
            mk("string", "x: \"", &q[1..q.len() - 1], "\"")
        }
        11 => mk("comment", "#", &gen_char(s).to_string().replace('\n', " "), "\nx: 1"),
        12 => mk("gap", "x:", *s.pick(&[" ", "\n", "\t", "#\n", "\r\n", " # c\n", "\u{3000}"]), "1"),
        13 => Shape { most: 4_000, ..mk("digits", "x: 1", *s.pick(&["0", "7", "_5", "123"]), "") },
        14 => Shape { totals: false, most: 2_000, ..mk("decimals", "x: 0.", *s.pick(&["1", "37", "90"]), "1") },
        15 => mk("name", "a", *s.pick(&["a", "_", "9", "é", "漢"]), ": 1"),
        16 => Shape { totals: false, most: 2_000, ..mk("sum", "x: 1", *s.pick(&["+1", "-2", "*1", "+1.5"]), "") },
        17 => Shape { totals: false, most: 500, ..mk("longer and longer", *s.pick(&["x: \"\"", "y: \"ab\" x: y"]), "+\"ab\"", "") },
        18 => mk("signs", "x: ", *s.pick(&["-", "+", "-+"]), "1"),
        19 => Shape { totals: false, most: 300, ..mk("array sum", "x: []", &format!("+[{}\n]", u), "") },
        20 => mk("includes", "x: [", *s.pick(&["<\"zz5\"> ", "<Str \"zz5\"> ", "<Tup \"zz5\"> ", "<\"./zz5\"> "]), "]"),
        22 => Shape { most: 400, weight: 4 * u.len(), ..mk("fields from a field", &format!("g: {}\nx: {{a: 1}}\n", u), *s.pick(&["f%: g\n", "f%: x.a\n", "@f%: g\n", "f%: (g)\n"]), "") },
        23 => Shape { most: 400, weight: 4 * u.len(), ..mk("fields from a global", &format!("@g: {}\n@x: {{a: 1}}\n", u), *s.pick(&["f%: @g\n", "f%: @x.a\n", "@f%: @g\n", "f%: (@g)\n"]), "") },
        24 => Shape { most: 400, weight: 6 * u.len() + 12, ..mk("heirs", &format!("@p: {{a: {}\n}}\n", u), *s.pick(&["f%: {^: @p}\n", "f%: {^: @p b: 1}\n", "@f%: {^: @p}\n"]), "") },
        _ => mk("objects", "x: [", &format!("{{a: {}\nb: {}\n}}", u, u), "]"),
    };
    if s.chance(1, 3) && (k < 10 || k == 21) {
        // Deeper.
        for _ in 0..s.range(1, 20) {
            let (a, b) = *s.pick(&[("[", "]"), ("(", ")"), ("(1 ", ")"), ("{y: ", "}"), ("{z: 1 y: ", "}")]);
            let i = match sh.pre.find("x: ") {
                Some(i) => i + 3,
                None => break,
            };
            // Names of the document cannot be used within an object.
            if a.starts_with('{') && (5..10).contains(&k) && k != 7 {
                continue;
            }
            sh.pre.insert_str(i, a);
            sh.post.push_str(b);
        }
    }
    if s.chance(1, 4) {
        sh.post.push_str(*s.pick(&[" zz: @", " zz: nothing_there", " ]", " zz: [", " zz: \"", " zz: 1+", " zz: <\"none\">"]));
    }
    sh
}

impl Shape {
    fn text(&self, n: usize) -> String {
        let mut t = self.pre.clone();
        for i in 0..n {
            if self.unit.starts_with("f%") || self.unit.starts_with("@f%") {
                // (Of the same length every time.)
                t.push_str(&self.unit.replacen('%', &format!("{:06}", i), 1));
            } else {
                t.push_str(&self.unit);
            }
        }
        t.push_str(&self.post);
        t
    }
}

fn c33_scale(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sh = shape(s);
    let want = match s.weighted(&[75, 10, 15]) {
        0 => s.range(1_000, 3_000),
        1 => s.range(1_000, 20_000),
        _ => s.near(1_000, 20_000) as usize,
    };
    let n = (want / sh.weight.max(1)).clamp(8, sh.most);
    ctx.label(sh.name);
    ctx.input = format!("{} ({:?} {} and {} times) {}", sh.pre, sh.unit, n, n * TIMES, sh.post);
    publish_input(&ctx.input);
    let (small, large) = (sh.text(n), sh.text(n * TIMES));
    ctx.nontrivial = large.len() >= 10_000;
    if sh.name == "includes" {
        fs::write("zz5", if sh.unit.contains("Tup") { "1 2" } else { "a: 1 b: [2]" }).map_err(harness)?;
    }
    let (a, b) = (costs(&small, sh.totals), costs(&large, sh.totals));
    if sh.name == "includes" {
        let _ = fs::remove_file("zz5");
    }
    let (a, b) = (a?, b?);
    ensure!(a.ok == b.ok || sh.name == "digits", "{} times it is {}, {} times not", n, if a.ok { "accepted" } else { "rejected" }, n * TIMES);
    ctx.label(if a.ok { "accepted" } else { "rejected" });
    for ((what, x), (_, y)) in a.list.iter().zip(&b.list) {
        let x = (*x).max(1);
        ensure!(*y <= x * MOST + SLACK, "{}: {} for {} characters, {} for {}", what, x, a.len, y, b.len);
        let most = ABSOLUTE.iter().find(|(w, _)| w == what).map(|w| w.1).unwrap_or(0);
        ensure!(!b.ok || !sh.totals || *y <= b.len * most + SLACK, "{}: {} for {} characters", what, y, b.len);
    }
    Ok(())
}

/// A container whose type is short.
fn big(s: &mut Src) -> String {
    let n = s.range(2_000, 20_000);
    let u = piece(s);
    let k = n / (u.len() + 6) + 1;
    match s.below(5) {
        4 => {
            // Few large elements, or many small ones of one short type.
            let m = s.range(1, 8);
            format!("({})", format!("\"{}\" ", "x".repeat(n / m)).repeat(m))
        }
        0 => format!("[{}]", "1234567 ".repeat(n / 8)),
        1 => format!("[{}]", format!("{{a: {}\n}} ", u).repeat(k)),
        2 => format!("{{s: \"{}\"}}", "x".repeat(n)),
        _ => format!("{{{}}}", (0..k.min(400)).map(|i| format!("f{}: {}\n", i, u)).collect::<String>()),
    }
}

/// A container used again is not copied.
fn c33_share(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let y = big(s);
    let m = s.range(20, 300);
    let k = s.below(10);
    let (name, pre, unit, post): (_, String, &str, &str) = match k {
        0 => ("elements", format!("y: {} x: [", y), "y ", "]"),
        1 => ("elements of a tuple", format!("y: {} x: (", y), "y ", ")"),
        2 => ("fields", format!("@y: {} x: {{", y), "f%: @y ", "}"),
        3 => ("parents", format!("y: {{z: {}}} @y: y x: (", y), "{^: @y} ", ")"),
        4 => ("fields of objects", format!("@y: {} x: [", y), "{a: @y} ", "]"),
        5 => ("elements of elements", format!("y: ({}) x: [", y), "y.0 ", "]"),
        6 => ("fields of fields", format!("y: {{a: 1 z: {}}} x: (", y), "y.z ", ")"),
        7 => ("inherited fields", format!("y: {{^: {{a: 1 z: {}}}}} x: [", y), "y.z ", "]"),
        8 => ("includes", "x: [".into(), "<\"zz5\"> ", "]"),
        _ => ("includes of included", "x: (".into(), "[<\"./zz5\">] ", ")"),
    };
    ctx.label(name);
    ctx.nontrivial = true;
    if k >= 8 {
        fs::write("zz5", format!("y: {}", y)).map_err(harness)?;
    }
    ctx.input = format!("{}, {} times: {}{}{} where y is {}", name, m, if k >= 8 { &pre } else { "..." }, unit, post, y);
    publish_input(&ctx.input);
    let sh = Shape { name, pre, unit: unit.into(), post: post.into(), totals: false, most: 0, weight: 0 };
    let mut c = vec![];
    for n in [1, 1 + m] {
        let text = sh.text(n);
        let (r, u) = usage(|| no_panic(|| Obj::from_str(&text)));
        c.push((r?, u));
    }
    if k >= 8 {
        let _ = fs::remove_file("zz5");
    }
    let (a, b) = (&c[0], &c[1]);
    let o = b.0.as_ref().map_err(|e| format!("rejected: {}", e))?;
    ensure!(a.0.is_ok(), "rejected");
    let more = b.1.kept - a.1.kept;
    ensure!(more <= m as isize * 800 + 20_000, "{} uses of a container of {} characters keep {} bytes more than one", 1 + m, y.len(), more);
    // What it takes to find a field is given back before the next.
    let more = b.1.peak - a.1.peak;
    ensure!(more <= m as isize * 800 + 20_000, "loading {} uses of a container of {} characters takes {} bytes more than one", 1 + m, y.len(), more);
    // Through the API.
    let v = o.get("y").or_else(|| o.get("x")).ok_or("no field")?;
    let w = v.clone();
    let small = |what: &str, u: Usage, most: isize| -> CaseResult {
        ensure!(u.total <= most, "{} allocates {} bytes", what, u.total);
        Ok(())
    };
    let (_, u) = usage(|| drop(v.clone()));
    small("a copy", u, 0)?;
    let (_, u) = usage(|| o.get("y"));
    small("Obj::get", u, 500)?;
    let (_, u) = usage(|| o.get_with_source("y"));
    small("Obj::get_with_source", u, 500)?;
    let (_, u) = usage(|| (v.get_obj().map_err(drop), v.get_int().map_err(drop)));
    if let Value::Obj(p) = &v {
        small("a getter", u, 1_000)?;
        let (_, u) = usage(|| (p.pairs_ref().len(), p.iter().count(), p.get_parent(), p.has_parent(), p.contains("a"), p.len()));
        small("reading an object", u, 100)?;
        let (h, u) = usage(|| Obj::from_pairs(vec![], Some(p.clone())));
        small("an object with a parent", u, 1_000)?;
        drop(h);
    }
    if let Value::Arr(_) | Value::Obj(_) | Value::Tup(_) = &v {
        // (The types of a tuple's elements are copied.)
        let types = if let Value::Tup(t) = &v { 300 * t.len() as isize } else { 0 };
        let (_, u) = usage(|| Value::from(over::tup::Tup::from_values(vec![v.clone(), w])));
        small("a tuple around it", u, 3_000 + types)?;
        let (_, u) = usage(|| over::arr::Arr::from_values(vec![v.clone(), v.clone()]));
        small("an array around it", u, 3_000 + types)?;
        let (_, u) = usage(|| Obj::from_pairs(vec![over::obj::Pair("a".into(), v.clone())], None));
        small("an object around it", u, 3_000 + types)?;
    }
    Ok(())
}
