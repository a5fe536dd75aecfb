//! Properties of values: round trips, inheritance, array types, accessors, equality, identity, views,
//! conversions, display.

use super::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, ToPrimitive, Zero};
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use over::ReferenceType;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "objects built through the API from a random value model, objects read from random documents, chains of containers and parents of up to exactly 64 levels, and large objects, each written to a string or file, read back and written again. Non-trivial: the object holds a string with a special character, a fraction, a number beyond 64 bits, a parent, or at least two levels",
            assumptions: vec![PURE],
            subs: vec![
                sub("api", 220_000, 4_400_000, c01_api),
                sub("parsed", 190_000, 3_800_000, c01_parsed),
                sub("deep", 19_000, 380_000, c01_deep),
                sub("file", 100_000, 2_000_000, c01_file),
                sub("big", 2_900, 58_000, c01_big),
            ],
        },
        Prop {
            id: "C07",
            level: "exploration",
            rule: "chains of 1 to 8 objects (through the API up to 310) over a small set of names, built through the API or written with '^' at a random place as a literal, a variable, a global or a path, and looked up by every name; rejected ones have two parents or a parent that is not an object. Non-trivial: at least one parent",
            assumptions: vec![PURE],
            subs: vec![
                sub("api", 1_000_000, 20_000_000, c07_api),
                sub("text", 660_000, 13_200_000, c07_text),
                sub("rejected", 2_000_000, 40_000_000, c07_rejected),
                sub("long", 8_000, 160_000, c07_long),
            ],
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "lists of 0 to 24 values of one random type with empty arrays for some of the inner arrays, a third of them with one value changed to another type, given to Arr::from_values in several orders and written as a literal, a concatenation and an included file. Non-trivial: at least two elements, one of them a container",
            assumptions: vec![PURE],
            subs: vec![
                sub("api", 860_000, 17_200_000, c09_api),
                sub("text", 910_000, 18_200_000, c09_text),
                sub("file", 310_000, 6_200_000, c09_file),
            ],
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "types of up to 4 levels, or up to 300 elements wide and 200 levels deep, and related types got by changing parts of them (to Any, to another type, by arity). Non-trivial: one of the types is an array or tuple type",
            assumptions: vec![PURE],
            subs: vec![sub("pairs", 2_000_000, 40_000_000, c10_pairs), sub("triples", 2_000_000, 40_000_000, c10_triples), sub("large", 40_000, 800_000, c10_large)],
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "every typed getter on every generated value, on fields holding it (own and inherited), on missing fields, and on indices around the ends. Non-trivial: always (every case has getters that succeed and ones that fail)",
            assumptions: vec![PURE],
            subs: vec![sub("value", 2_000_000, 40_000_000, c17_value), sub("field", 390_000, 7_800_000, c17_field)],
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "a value, copies of it built in other ways (without sharing, through text, through references), and the value with a single difference at a random place. Non-trivial: the value is a container with at least one element",
            assumptions: vec![PURE],
            subs: vec![sub("same", 700_000, 14_000_000, c18_same), sub("changed", 1_400_000, 28_000_000, c18_changed), sub("long", 60_000, 1_200_000, c18_long), sub("others", 1_000_000, 20_000_000, c18_others)],
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "histories of up to 60 operations (create, clone, drop, get, look up, iterate) against a model which counts handles and holders; up to 200000 instances alive at once; documents whose sharing of instances is known; several threads creating and cloning at once. Non-trivial: an instance has at least two references",
            assumptions: vec![PURE, "thread interleavings are those the machine happens to produce"],
            subs: vec![
                sub("history", 340_000, 6_800_000, c19_history),
                sub("parsed", 600_000, 12_000_000, c19_parsed),
                sub("threads", 27_000, 540_000, c19_threads),
                sub("many", 400, 8_000, c19_many),
                sub("large", 8_000, 160_000, c19_large),
            ],
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "containers of 0 to 24 elements built from known values and looked at in every way the API offers, again after other containers are built from their parts. Non-trivial: at least two elements",
            assumptions: vec![PURE],
            subs: vec![sub("views", 1_100_000, 22_000_000, c23_views), sub("unchanged", 210_000, 4_200_000, c23_unchanged), sub("large", 1_500, 30_000, c23_large)],
        },
        Prop {
            id: "C24",
            level: "exploration",
            rule: "native integers of every width at and around their limits and at random, big integers around every power of two compared with each width's image of them, rationals, strings, booleans and containers. Non-trivial: always",
            assumptions: vec![PURE],
            subs: vec![sub("native", 670_000, 13_400_000, c24_native), sub("bigints", 2_000_000, 40_000_000, c24_big), sub("kinds", 1_700_000, 34_000_000, c24_kinds)],
        },
        Prop {
            id: "C25",
            level: "exploration",
            rule: "random values (and chains of containers of up to exactly 62 levels), displayed and read back as a field, as array and tuple elements, inside an object and as the content of included files. Non-trivial: the value is a container, a fraction, or a string with a special character",
            assumptions: vec![PURE],
            subs: vec![sub("values", 280_000, 5_600_000, c25_values), sub("deep", 6_400, 128_000, c25_deep), sub("file", 180_000, 3_600_000, c25_file)],
        },
    ]
}

fn harness(e: impl std::fmt::Display) -> String {
    format!("{}{}", HARNESS, e)
}

/// Whether a value is worth counting as a non-trivial round trip.
fn interesting(v: &MV) -> bool {
    match v {
        MV::Null | MV::Bool(_) => false,
        MV::Int(i) => i.to_i64().is_none(),
        MV::Frac(_) => true,
        MV::Str(s) => s.chars().any(|c| !c.is_ascii_alphanumeric()),
        MV::Arr(a) => a.vals.iter().any(|v| v.nesting() > 0 || interesting(v)),
        MV::Tup(a) => a.iter().any(|v| v.nesting() > 0 || interesting(v)),
        MV::Obj(o) => o.parent.is_some() || o.pairs.iter().any(|(_, v)| v.nesting() > 0 || interesting(v)),
    }
}

// --------------------------------------------------------------------------------------------- C01

/// Writes `o` (which is `m`), reads it back, writes that again.
fn round_trip(m: &MObj, o: &Obj) -> CaseResult {
    let text = o.write_to_string();
    let r = Obj::from_str(&text).map_err(|e| format!("what was written does not parse: {}; written: {:?}", e, text))?;
    cmp_obj(m, &r).map_err(|e| format!("read back as something else: {}; written: {:?}", e, text))?;
    ensure!(r == *o, "the object read back is not equal to the one written: {:?}", text);
    let again = r.write_to_string();
    ensure!(again == text, "writing the re-read object gives {:?}, before {:?}", again, text);
    Ok(())
}

fn c01_api(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).obj(s, 1);
    ctx.input = show_mv(&MV::Obj(m.clone()));
    ctx.nontrivial = interesting(&MV::Obj(m.clone()));
    ctx.label_if(m.parent.is_some(), "parent");
    ctx.label_if(m.nesting() >= 3, "three levels");
    let o = build_obj(&m)?;
    round_trip(&m, &o)
}

fn c01_parsed(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    with_pantry(s, &mut c);
    let (text, _, _) = gen_doc(s, ctx, c, None);
    let o = match Obj::from_str(&text) {
        Ok(o) => o,
        // Whether it should have been accepted is C14's business.
        Err(_) => {
            ctx.label("rejected");
            return Ok(());
        }
    };
    let m = reify_obj(&o);
    ctx.nontrivial = interesting(&MV::Obj(m.clone()));
    round_trip(&m, &o)
}

/// A value of exactly `n` levels (0 for a scalar): each level is any container, the next one being
/// any of its elements or its parent, with small siblings.
pub fn deep_value(s: &mut Src, n: usize) -> MV {
    let kinds = s.weighted(&[40, 10, 10, 10, 10, 20]);
    let mut v = MV::int(s.below(10) as i64);
    let mut first = true;
    let mut doubled = 0;
    for _ in 0..n {
        let k = match kinds {
            0 => s.usize(4),
            1 => 0,
            2 => 1,
            3 => 2,
            4 => 3,
            _ => s.usize(3),
        };
        let sib = |s: &mut Src| match s.below(4) {
            0 => MV::Null,
            1 => MV::str("s"),
            2 => MV::int(s.below(5) as i64),
            _ if first => MV::Bool(true),
            _ => MV::tup(vec![]),
        };
        // A scalar cannot be a parent.
        let k = if first && k == 3 { 2 } else { k };
        v = match k {
            0 => {
                let twice = doubled < 4 && s.chance(1, 8);
                doubled += twice as usize;
                MV::arr(if twice { vec![v.clone(), v] } else { vec![v] }).expect("HARNESS ERROR: one type")
            }
            1 => {
                let mut e = vec![];
                if s.chance(1, 4) {
                    e.push(sib(s));
                }
                e.push(v);
                if s.chance(1, 4) {
                    e.push(sib(s));
                }
                MV::tup(e)
            }
            3 if matches!(v, MV::Obj(_)) => {
                let p = match &v {
                    MV::Obj(o) => o.clone(),
                    _ => unreachable!(),
                };
                let mut f = vec![];
                if s.chance(1, 3) {
                    f.push((gen_name(s), sib(s)));
                }
                MV::obj(f, Some(p))
            }
            _ => {
                let mut f = vec![];
                if s.chance(1, 4) {
                    f.push((gen_name(s), sib(s)));
                }
                let n = fresh_name(s, &|n| f.iter().any(|(m, _): &(String, MV)| m == n));
                f.push((n, v));
                MV::obj(f, None)
            }
        };
        first = false;
    }
    v
}

fn c01_deep(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.below(4) {
        0 => 63,
        1 => 62,
        2 => s.range(40, 63),
        _ => s.range(1, 63),
    };
    let v = deep_value(s, n);
    if v.size() > 5_000 {
        ctx.label("skipped: too large");
        return Ok(());
    }
    let m = Rc::new(match (&v, s.chance(1, 4)) {
        (MV::Obj(o), true) => MObj { pairs: vec![("z".into(), MV::Null)], parent: Some(o.clone()) },
        _ => MObj { pairs: vec![("a".into(), v.clone()), ("z".into(), MV::Null)], parent: None },
    });
    ctx.input = show_mv(&MV::Obj(m.clone()));
    ctx.nontrivial = true;
    ctx.label_if(n == 63, "64 levels");
    ensure!(m.nesting() == n + 1, "{}levels", HARNESS);
    let o = build_obj(&m)?;
    round_trip(&m, &o)
}

fn c01_file(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).obj(s, 1);
    ctx.input = show_mv(&MV::Obj(m.clone()));
    ctx.nontrivial = interesting(&MV::Obj(m.clone()));
    let o = build_obj(&m)?;
    let d = super::files::fresh_dir();
    let p = d.path().join(s.pick(&["x.over", "no_suffix", "spa ce é.over", ".hidden"]));
    let p = p.to_str().unwrap();
    if s.chance(1, 4) {
        std::fs::write(p, vec![b'x'; s.usize(4000)]).map_err(harness)?;
    }
    o.write_to_file(p).map_err(|e| format!("writing failed: {}", e))?;
    let r = Obj::from_file(p).map_err(|e| format!("what was written does not parse: {}", e))?;
    cmp_obj(&m, &r).map_err(|e| format!("read back as something else: {}", e))?;
    ensure!(r == o, "the object read back is not equal to the one written");
    let q = d.path().join("y.over");
    let q = q.to_str().unwrap();
    r.write_to_file(q).map_err(|e| format!("writing failed: {}", e))?;
    let (a, b) = (std::fs::read(p).map_err(harness)?, std::fs::read(q).map_err(harness)?);
    ensure!(a == b, "writing the re-read object gives another text");
    ensure!(a == o.write_to_string().into_bytes(), "the file is not what is written to a string");
    Ok(())
}

fn c01_big(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (max, unit) = if ctx.tier_thorough { (200_000, 20_000) } else { (20_000, 3_000) };
    let n = if s.chance(1, 4) { s.near(9, unit as u64) as usize } else { s.range(1, unit) };
    let m = match s.below(5) {
        0 => {
            ctx.label("many fields");
            MObj { pairs: (0..n).map(|i| (format!("f{}", i), MV::int(i as i64))).collect(), parent: None }
        }
        1 => {
            ctx.label("many elements");
            let e: Vec<MV> = (0..n).map(|i| MV::str(&format!("e{}\"", i))).collect();
            MObj { pairs: vec![("a".into(), MV::arr(e.clone()).unwrap()), ("t".into(), MV::tup(e))], parent: None }
        }
        2 => {
            ctx.label("long string");
            let c = gen_char(s);
            let k = if s.chance(1, 3) { s.near(9, 70_000) as usize } else { s.range(1, max) };
            MObj { pairs: vec![("a".into(), MV::str(&std::iter::repeat(c).take(k).collect::<String>()))], parent: None }
        }
        3 => {
            ctx.label("long number");
            let k = if s.chance(1, 3) { s.near(9, 6_000) as usize } else { s.range(1, 4000) };
            let t: String = (0..k).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            let v = digits_value(&t);
            let d = pow10(s.usize(1000)) + BigInt::one();
            MObj {
                pairs: vec![("a".into(), MV::Int(-v.clone())), ("b".into(), MV::Frac(BigRational::new(v, d)))],
                parent: None,
            }
        }
        _ => {
            ctx.label("many objects");
            let e: Vec<MV> = (0..n).map(|i| MV::obj(vec![("i".into(), MV::int(i as i64)), ("e".into(), MV::tup(vec![]))], None)).collect();
            MObj { pairs: vec![("a".into(), MV::arr(e).unwrap())], parent: None }
        }
    };
    let m = Rc::new(m);
    ctx.input = show_mv(&MV::Obj(m.clone()));
    ctx.nontrivial = true;
    let o = build_obj(&m)?;
    round_trip(&m, &o)
}

// --------------------------------------------------------------------------------------------- C07

const CNAMES: [&str; 6] = ["a", "b", "c", "d", "é", "_1"];

/// A chain of objects, the last being the youngest.
fn chain(s: &mut Src) -> Vec<Rc<MObj>> {
    let n = 1 + s.weighted(&[10, 30, 25, 15, 10, 4, 3, 3]);
    let mut v: Vec<Rc<MObj>> = vec![];
    let mut k = 0;
    // Values which several objects of the chain may have, under the same name or others.
    let common = if s.chance(1, 3) {
        vec![
            MV::tup(vec![MV::int(1), MV::str("t")]),
            MV::arr(vec![MV::int(1), MV::int(2)]).expect("HARNESS ERROR: array"),
            MV::obj(vec![("a".into(), MV::int(7))], None),
            MV::tup(vec![]),
            MV::int(1),
            MV::str("s"),
        ]
    } else {
        vec![]
    };
    for _ in 0..n {
        let mut pairs: Vec<(String, MV)> = vec![];
        for name in CNAMES.iter() {
            if s.chance(1, 3) {
                k += 1;
                if !common.is_empty() && s.bool() {
                    let c = s.pick(&common).clone();
                    // The same instance, or an equal one.
                    let c = match &c {
                        MV::Tup(t) if s.chance(1, 3) => MV::tup(t.to_vec()),
                        _ => c,
                    };
                    pairs.push((name.to_string(), c));
                    continue;
                }
                let val = match s.below(5) {
                    0 => MV::Null,
                    1 => MV::str(&format!("v{}", k)),
                    2 => MV::obj(vec![("a".into(), MV::int(k))], None),
                    _ => MV::int(k),
                };
                pairs.push((name.to_string(), val));
            }
        }
        if s.chance(1, 2) {
            pairs.reverse();
        }
        if s.chance(1, 150) {
            // Many others.
            let n = s.near(9, 400) as usize;
            let more: Vec<(String, MV)> = (0..n).map(|i| (format!("w{}", i), MV::int(i as i64))).collect();
            let at = s.usize(pairs.len() + 1);
            pairs.splice(at..at, more);
        }
        let parent = v.last().cloned();
        v.push(Rc::new(MObj { pairs, parent }));
    }
    v
}

const ODD_NAMES: [&str; 18] = [
    "a.a", "b.a", "a.b", "^.a", "a.0", "c.0", "a.", ".a", " a", "a ", "@a", "a:", "^a", "a[0]", "a/a", "a::a", "a\0", "b->a",
];

/// Looks everything up in `o`, which is `m` with these ancestors (nearest first).
fn check_lookup(m: &MObj, o: &Obj) -> CaseResult {
    // The objects of the chain, by the API.
    let mut objs: Vec<Obj> = vec![o.clone()];
    while let Some(p) = objs.last().unwrap().get_parent() {
        objs.push(p);
        ensure!(objs.len() < 100, "the chain of parents does not end");
    }
    // Also names that are none, but would be paths, or these names in other words.
    for name in CNAMES.iter().chain(["e", "", "^", "null", "A", "aa"].iter()).chain(ODD_NAMES.iter()) {
        let want = m.lookup(name);
        match (&want, o.get(name)) {
            (None, None) => {}
            (Some((w, _)), Some(v)) => cmp_val(w, &v).map_err(|e| format!("field {}: {}", name, e))?,
            (None, Some(v)) => return Err(format!("field {} should be absent but is {}", name, show_val(&v))),
            (Some((w, _)), None) => return Err(format!("field {} should be {} but is absent", name, show_mv(w))),
        }
        match (&want, o.get_with_source(name)) {
            (None, None) => {}
            (Some((w, up)), Some((v, src))) => {
                cmp_val(w, &v).map_err(|e| format!("get_with_source of {}: {}", name, e))?;
                ensure!(objs[*up].ptr_eq(&src), "the source of {} is not the ancestor {} levels up", name, up);
                ensure!(objs[*up].id() == src.id(), "the source of {} has another ID", name);
            }
            (a, b) => return Err(format!("get_with_source of {}: expected {}, found {}", name, a.is_some(), b.is_some())),
        }
        ensure!(o.contains(name) == m.own(name).is_some(), "contains({}) is {}", name, o.contains(name));
        if let Some((MV::Int(i), _)) = &want {
            match o.get_int(name) {
                Ok(j) if j == *i => {}
                r => return Err(format!("get_int({}) is {:?}, expected {}", name, r, i)),
            }
        }
        if want.is_none() {
            match o.get_int(name) {
                Err(OverError::FieldNotFound(f)) if f == *name => {}
                r => return Err(format!("get_int({}) of an absent field is {:?}", name, r)),
            }
        }
    }
    let own: Vec<&String> = m.pairs.iter().map(|p| &p.0).collect();
    ensure!(o.len() == own.len(), "len is {}, own fields are {:?}", o.len(), own);
    ensure!(o.is_empty() == own.is_empty(), "is_empty is {}", o.is_empty());
    ensure!(o.has_parent() == m.parent.is_some(), "has_parent is {}", o.has_parent());
    let it: Vec<&String> = o.iter().map(|p| &p.0).collect();
    ensure!(it == own, "iterating visits {:?}, own fields are {:?}", it, own);
    let mut each: Vec<String> = vec![];
    o.with_each(|n, _| each.push(n.clone()));
    ensure!(each.iter().collect::<Vec<_>>() == own, "with_each visits {:?}, own fields are {:?}", each, own);
    Ok(())
}

fn c07_api(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ms = chain(s);
    ctx.input = show_mv(&MV::Obj(ms.last().unwrap().clone()));
    ctx.nontrivial = ms.len() > 1;
    let mut b = Builder::default();
    let mut objs: Vec<Obj> = vec![];
    for m in &ms {
        // Through the function or the macro's way.
        let mut pairs = vec![];
        for (n, v) in &m.pairs {
            pairs.push(Pair(n.clone(), b.val(v)?));
        }
        let o = Obj::from_pairs(pairs, objs.last().cloned()).map_err(|e| format!("legal fields rejected: {}", e))?;
        objs.push(o);
    }
    for (i, o) in objs.iter().enumerate() {
        check_lookup(&ms[i], o)?;
        if i > 0 {
            let p = o.get_parent().ok_or("no parent")?;
            ensure!(p.ptr_eq(&objs[i - 1]), "the parent is not the instance given");
        }
    }
    Ok(())
}

/// Chains longer than anything that can be written.
fn c07_long(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = if s.chance(1, 4) { s.near(9, 1_000) as usize } else { [20, 70, 140, 300][s.weighted(&[20, 40, 30, 10])] + s.usize(10) };
    ctx.input = format!("{} objects: ", n);
    ctx.nontrivial = true;
    let names = ["a", "b", "c", "d", "e"];
    let mut objs: Vec<Obj> = vec![];
    // For each object and name: the value and where it is.
    let mut known: Vec<Vec<Option<(i64, usize)>>> = vec![];
    for i in 0..n {
        let mut now = known.last().cloned().unwrap_or_else(|| vec![None; names.len()]);
        let mut pairs = vec![];
        for (k, name) in names.iter().enumerate() {
            if s.chance(1, if i == 0 { 2 } else { [4, 40, 100, 200, 100_000][k] }) {
                let v = s.usize(1000) as i64;
                now[k] = Some((v, i));
                pairs.push(Pair(name.to_string(), Value::from(v)));
                ctx.input.push_str(&format!("{}.{} ", i, name));
            }
        }
        objs.push(Obj::from_pairs(pairs, objs.last().cloned()).map_err(|e| format!("legal fields rejected: {}", e))?);
        known.push(now);
    }
    publish_input(&ctx.input);
    for i in [n - 1, n / 2, s.usize(n)] {
        for (k, name) in names.iter().enumerate() {
            let o = &objs[i];
            let (v, src, int) = (o.get(name), o.get_with_source(name), o.get_int(name));
            match known[i][k] {
                None => ensure!(v.is_none() && src.is_none() && int.is_err(), "object {}: {} should be absent", i, name),
                Some((w, at)) => {
                    ensure!(v == Some(Value::from(w)), "object {}: {} is {:?} instead of {}", i, name, v.map(|v| show_val(&v)), w);
                    ensure!(int.ok() == Some(BigInt::from(w)), "object {}: get_int of {} is not {}", i, name, w);
                    let (v, src) = src.ok_or_else(|| format!("object {}: get_with_source does not find {}", i, name))?;
                    ensure!(v == Value::from(w), "object {}: {} with source is {}", i, name, show_val(&v));
                    ensure!(src.ptr_eq(&objs[at]), "object {}: the source of {} is not object {}", i, name, at);
                }
            }
        }
    }
    let mut up = objs[n - 1].clone();
    for i in (0..n - 1).rev() {
        up = up.get_parent().ok_or_else(|| format!("object {} has no parent", i + 1))?;
        ensure!(up.ptr_eq(&objs[i]), "the parent of object {} is another one", i + 1);
    }
    ensure!(!up.has_parent(), "the first object has a parent");
    Ok(())
}

fn own_text(m: &MObj, s: &mut Src, parent: Option<String>) -> Vec<String> {
    let mut f: Vec<String> = m.pairs.iter().map(|(n, v)| format!("{}: {}", n, plain(v))).collect();
    if let Some(p) = parent {
        let i = s.usize(f.len() + 1);
        f.insert(i, format!("^: {}", p));
    }
    f
}

fn c07_text(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ms = chain(s);
    // Every object but the last is defined somewhere and then named.
    let mut defs: Vec<String> = vec![];
    let mut last: Option<String> = None;
    for (i, m) in ms.iter().enumerate() {
        let body = own_text(m, s, last.take()).join(*s.pick(&["\n", " ", " # x\n"]));
        let lit = format!("{{{}}}", body);
        // As the target for the next, or the result.
        last = Some(match s.below(4) {
            _ if i + 1 == ms.len() => body,
            0 => {
                ctx.label("literal parent");
                lit
            }
            1 => {
                ctx.label("global parent");
                defs.push(format!("@g{}: {}", i, lit));
                format!("@g{}", i)
            }
            2 => {
                ctx.label("path parent");
                defs.push(format!("@h{}: {{x: (1 2) o: {}}}", i, lit));
                format!("@h{}.o", i)
            }
            _ => {
                ctx.label("element parent");
                defs.push(format!("@k{}: [{}]", i, lit));
                format!("@k{}.0", i)
            }
        });
    }
    let body = last.unwrap();
    // The document itself is the youngest, or a field of it.
    let nested = s.bool();
    let text = if nested {
        format!("{}\nr: {{ {}\n}}", defs.join("\n"), body)
    } else {
        format!("{}\n{}", defs.join("\n"), body)
    };
    ctx.input = text.clone();
    ctx.nontrivial = ms.len() > 1;
    let doc = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    let mut o = if nested { doc.get_obj("r").map_err(|e| format!("no object: {}", e))? } else { doc.clone() };
    for m in ms.iter().rev() {
        check_lookup(m, &o)?;
        cmp_obj(m, &o)?;
        if let Some(p) = o.get_parent() {
            o = p;
        }
    }
    Ok(())
}

fn c07_rejected(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ms = chain(s);
    let m = ms.last().unwrap();
    let mut f = own_text(&MObj { pairs: m.pairs.clone(), parent: None }, s, None);
    let mut pre = String::from("@o: {a: 1}\n");
    let two = s.bool();
    if two {
        ctx.label("two parents");
        for _ in 0..2 {
            let i = s.usize(f.len() + 1);
            f.insert(i, format!("^: {}", s.pick(&["{}", "{a: 1}", "@o", "{^: @o}"])));
        }
    } else {
        ctx.label("not an object");
        let i = s.usize(f.len() + 1);
        let v = s.pick(&["null", "1", "-1", "1.5", "\"o\"", "true", "[]", "[{}]", "()", "({})", "@n", "@t", "1+1", "[{}]+[]", "\"a\"+\"b\"", "@t.1", "^", "{", ""]);
        f.insert(i, format!("^: {}", v));
        pre.push_str("@n: 5 @t: ({} 1)\n");
    }
    let body = f.join("\n");
    let text = match s.below(4) {
        0 => format!("{}{}", pre, body),
        1 => format!("{}x: {{ {} }}", pre, body),
        2 => format!("{}x: [{{ {} }}]", pre, body),
        _ => format!("{}^: {{ {} }}", pre, body),
    };
    ctx.input = text.clone();
    ctx.nontrivial = true;
    match parse(&text)? {
        Err(_) => Ok(()),
        Ok(o) => Err(format!("accepted as {}", show_mv(&MV::Obj(reify_obj(&o))))),
    }
}

// --------------------------------------------------------------------------------------------- C09

/// Values which mostly have one type in common.
fn alike(s: &mut Src) -> Vec<MV> {
    let t = MT::Arr(Box::new(gen_type(s, 4)));
    let t = match (t, s.chance(1, 4)) {
        (MT::Arr(t), false) => *t,
        (t, _) => t,
    };
    let mut g = VG::new(s);
    g.budget = g.budget.max(40);
    let n = s.size(24);
    let mut v: Vec<MV> = (0..n).map(|_| g.value(s, 3, Some(&t))).collect();
    if !v.is_empty() && s.chance(1, 3) {
        let i = s.usize(v.len());
        v[i] = differ(s, &v[i]);
    }
    v
}

/// A value of a type that differs somewhere (perhaps only where an array is empty).
fn differ(s: &mut Src, v: &MV) -> MV {
    match v {
        MV::Arr(a) if s.chance(3, 4) => {
            if a.vals.is_empty() {
                return MV::arr(vec![MV::Null]).unwrap();
            }
            let e = differ(s, &a.vals[0]);
            MV::arr(vec![e]).unwrap()
        }
        MV::Tup(a) if !a.is_empty() && s.chance(3, 4) => {
            let mut a: Vec<MV> = a.to_vec();
            let i = s.usize(a.len());
            match s.below(4) {
                0 => {
                    a.remove(i);
                }
                1 => a.insert(i, MV::Null),
                _ => a[i] = differ(s, &a[i].clone()),
            }
            MV::tup(a)
        }
        _ => match s.below(9) {
            0 => MV::Null,
            1 => MV::int(7),
            2 => MV::Frac(BigRational::new(BigInt::from(7), BigInt::one())),
            3 => MV::str("7"),
            4 => MV::Bool(true),
            5 => MV::arr(vec![]).unwrap(),
            6 => MV::tup(vec![]),
            7 => MV::arr(vec![v.clone()]).unwrap(),
            _ => MV::obj(vec![], None),
        },
    }
}

fn shuffle<T>(s: &mut Src, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = s.usize(i + 1);
        v.swap(i, j);
    }
}

fn join_all(v: &[MV]) -> Option<MT> {
    let mut t = MT::Any;
    for x in v {
        t = MT::join(&t, &x.ty())?;
    }
    Some(t)
}

fn note_types(v: &[MV], want: &Option<MT>, ctx: &mut Ctx) {
    ctx.nontrivial = v.len() >= 2 && v.iter().any(|x| x.nesting() > 0);
    ctx.label(if want.is_some() { "one type" } else { "no one type" });
    if let Some(t) = want {
        let parts: Vec<MT> = v.iter().map(MV::ty).collect();
        ctx.label_if(t.has_any(), "type with Any");
        ctx.label_if(parts.len() > 1 && parts.iter().any(|p| p != t) && !t.has_any(), "made specific by a later element");
        ctx.label_if(parts.len() > 1 && !parts.iter().any(|p| p == t), "more specific than each element");
    }
}

fn c09_api(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = alike(s);
    let want = join_all(&v);
    ctx.input = show_mv(&MV::tup(v.clone()));
    note_types(&v, &want, ctx);
    let mut order = v.clone();
    for round in 0..3 {
        if round == 1 {
            order.reverse();
        } else if round == 2 {
            shuffle(s, &mut order);
        }
        let mut vals = vec![];
        let mut b = Builder::default();
        for x in &order {
            vals.push(b.val(x)?);
        }
        use std::convert::TryFrom;
        let got = if s.bool() { Arr::from_values(vals) } else { Arr::try_from(vals) };
        match (&want, got) {
            (Some(t), Ok(a)) => {
                let got = MT::from_over(&a.inner_type());
                ensure!(got == *t, "element type is {:?}, expected {:?}, for {}", got, t, show_mv(&MV::tup(order)));
                let vt = MT::from_over(&Value::from(a.clone()).get_type());
                ensure!(vt == MT::Arr(Box::new(t.clone())), "the type of the array is {:?}", vt);
                let m = MV::arr(order.clone()).expect("HARNESS ERROR: types");
                cmp_val(&m, &Value::from(a))?;
            }
            (None, Err(OverError::ArrTypeMismatch(_, _))) => {}
            (Some(t), Err(e)) => return Err(format!("rejected ({}) although {:?} fits all of {}", e, t, show_mv(&MV::tup(order)))),
            (None, Ok(a)) => {
                return Err(format!("accepted as {:?} although no type fits all of {}", a.inner_type(), show_mv(&MV::tup(order))))
            }
            (None, Err(e)) => return Err(format!("the error is not about types: {:?}", e)),
        }
    }
    Ok(())
}

fn c09_text(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = alike(s);
    let want = join_all(&v);
    note_types(&v, &want, ctx);
    let item = |v: &[MV]| format!("[{}]", v.iter().map(plain).collect::<Vec<_>>().join(" "));
    // As one literal, or as pieces joined; elements and pieces directly or named before.
    let mut pre = String::new();
    let mut k = 0;
    let mut name = |s: &mut Src, t: String, pre: &mut String| -> String {
        if s.chance(1, 4) {
            k += 1;
            pre.push_str(&format!("v{}: {}\n", k, t));
            format!("v{}", k)
        } else {
            t
        }
    };
    let pieces = s.usize(4);
    let text = if pieces == 0 {
        ctx.label("literal");
        let e: Vec<String> = v.iter().map(|x| name(s, plain(x), &mut pre)).collect();
        format!("[{}]", e.join(" "))
    } else {
        ctx.label("concatenation");
        let mut cuts: Vec<usize> = (0..pieces).map(|_| s.usize(v.len() + 1)).collect();
        cuts.push(0);
        cuts.push(v.len());
        cuts.sort();
        let p: Vec<String> = cuts.windows(2).map(|w| name(s, item(&v[w[0]..w[1]]), &mut pre)).collect();
        p.join("+")
    };
    let text = format!("{}r: {}", pre, text);
    ctx.input = text.clone();
    match (want, parse(&text)?) {
        (Some(_), Ok(o)) => {
            let m = MV::arr(v).expect("HARNESS ERROR: types");
            cmp_val(&m, &o.get("r").ok_or("no field r")?)
        }
        (None, Err(_)) => Ok(()),
        (Some(t), Err(e)) => Err(format!("rejected ({}) although {:?} fits all elements", e, t)),
        (None, Ok(o)) => Err(format!("accepted as {} although no type fits all elements", show_mv(&MV::Obj(reify_obj(&o))))),
    }
}

fn c09_file(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = alike(s);
    let want = join_all(&v);
    note_types(&v, &want, ctx);
    let d = super::files::fresh_dir();
    let body = v.iter().map(plain).collect::<Vec<_>>().join(*s.pick(&["\n", " ", " # c\n", "\n\n"]));
    ctx.input = body.clone();
    std::fs::write(d.path().join("a.over"), body).map_err(harness)?;
    std::fs::write(d.path().join("m.over"), "r: <Arr \"a.over\">").map_err(harness)?;
    let got = no_panic(|| Obj::from_file(d.path().join("m.over").to_str().unwrap()))?;
    match (want, got) {
        (Some(_), Ok(o)) => cmp_val(&MV::arr(v).expect("HARNESS ERROR: types"), &o.get("r").ok_or("no field r")?),
        (None, Err(_)) => Ok(()),
        (Some(t), Err(e)) => Err(format!("rejected ({}) although {:?} fits all elements", e, t)),
        (None, Ok(o)) => Err(format!("accepted as {} although no type fits all elements", show_mv(&MV::Obj(reify_obj(&o))))),
    }
}

// --------------------------------------------------------------------------------------------- C10

/// A type close to `t`.
pub fn near(s: &mut Src, t: &MT) -> MT {
    match s.weighted(&[30, 12, 12, 6]) {
        0 => match t {
            MT::Arr(x) => MT::Arr(Box::new(near(s, x))),
            MT::Tup(v) => {
                let mut v = v.clone();
                match s.weighted(&[60, 8, 8]) {
                    0 => {
                        for x in v.iter_mut() {
                            if s.chance(2, 3) {
                                *x = near(s, x);
                            }
                        }
                    }
                    1 => {
                        let i = s.usize(v.len() + 1);
                        v.insert(i, gen_type_any(s, 1));
                    }
                    _ => {
                        if !v.is_empty() {
                            let i = s.usize(v.len());
                            v.remove(i);
                        }
                    }
                }
                MT::Tup(v)
            }
            t => t.clone(),
        },
        1 => t.clone(),
        2 => MT::Any,
        _ => gen_type_any(s, 2),
    }
}

fn show_t(ts: &[&MT]) -> String {
    ts.iter().map(|t| format!("{:?}", t)).collect::<Vec<_>>().join(" / ")
}

/// Joins through the code under test.
fn spec(a: &Type, b: &Type) -> Option<(MT, bool)> {
    Type::most_specific(a, b).map(|(t, f)| (MT::from_over(&t), f))
}

fn c10_pair(a: &MT, b: &MT) -> CaseResult {
    let (x, y) = (a.to_over(), b.to_over());
    ensure!(x.is(&y) == (a == b), "is: {} for {:?} and {:?}", x.is(&y), a, b);
    ensure!(y.is(&x) == (a == b), "is: {} for {:?} and {:?}", y.is(&x), b, a);
    let eq = MT::compatible(a, b);
    ensure!((x == y) == eq, "equality is {} for {:?} and {:?}", x == y, a, b);
    ensure!((y == x) == eq, "equality is {} for {:?} and {:?}", y == x, b, a);
    ensure!((x != y) == !eq, "inequality is {} for {:?} and {:?}", x != y, a, b);
    for (t, z) in [(a, &x), (b, &y)] {
        ensure!(z == z && z.is(z) && z.is(&z.clone()), "not equal to itself: {:?}", t);
        ensure!(z.has_any() == t.has_any(), "has_any is {} for {:?}", z.has_any(), t);
        let want = Some(((*t).clone(), t.has_any()));
        let any = Type::Any;
        ensure!(spec(z, z) == want, "most_specific of {:?} and itself is {:?}", t, spec(z, z));
        ensure!(spec(z, &any) == want, "most_specific of {:?} and Any is {:?}", t, spec(z, &any));
        ensure!(spec(&any, z) == want, "most_specific of Any and {:?} is {:?}", t, spec(&any, z));
    }
    let want = MT::join(a, b).map(|t| {
        let f = t.has_any();
        (t, f)
    });
    ensure!(spec(&x, &y) == want, "most_specific of {:?} and {:?} is {:?}", a, b, spec(&x, &y));
    ensure!(spec(&y, &x) == want, "most_specific of {:?} and {:?} is {:?}", b, a, spec(&y, &x));
    if let Some((t, _)) = &want {
        let z = t.to_over();
        ensure!(z == x && z == y && x == z && y == z, "the join {:?} is not equal to {:?} and {:?}", t, a, b);
    }
    Ok(())
}

fn c10_pairs(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = s.range(0, 5);
    let a = gen_type_big(s, d);
    let b = near(s, &a);
    ctx.input = show_t(&[&a, &b]);
    ctx.nontrivial = a.size() > 1 || b.size() > 1;
    let eq = MT::compatible(&a, &b);
    ctx.label(if a == b {
        "same"
    } else if eq {
        "compatible"
    } else {
        "incompatible"
    });
    c10_pair(&a, &b)
}

/// The same type with one place changed.
fn change_one(s: &mut Src, t: &MT) -> MT {
    match t {
        MT::Arr(x) => MT::Arr(Box::new(change_one(s, x))),
        MT::Tup(v) if !v.is_empty() => {
            let mut v = v.clone();
            // The ends, and places the code under test mentions.
            let i = match s.below(4) {
                0 => v.len() - 1,
                1 => s.near(0, v.len() as u64 - 1) as usize,
                _ => s.usize(v.len()),
            };
            match s.weighted(&[70, 12, 12]) {
                0 => v[i] = change_one(s, &v[i]),
                1 => {
                    let x = v[i].clone();
                    v.insert(i, x)
                }
                _ => {
                    v.remove(i);
                }
            }
            MT::Tup(v)
        }
        _ => {
            if s.bool() {
                MT::Any
            } else {
                gen_type_any(s, 1)
            }
        }
    }
}

/// Wide and deep types, of which one differs from the other in one place.
fn c10_large(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let wide = |s: &mut Src| -> MT {
        let n = match s.weighted(&[60, 30, 10]) {
            0 => s.range(4, 20),
            1 => s.near(3, 300) as usize,
            _ => s.range(20, 300),
        };
        let same = if s.bool() { Some(gen_type_any(s, 1)) } else { None };
        MT::Tup((0..n).map(|_| same.clone().unwrap_or_else(|| gen_type_any(s, 1))).collect())
    };
    let mut a = if s.chance(3, 4) { wide(s) } else { gen_type_any(s, 1) };
    let depth = match s.weighted(&[50, 30, 20]) {
        0 => s.usize(4),
        1 => s.usize(64),
        _ => s.near(3, 200) as usize,
    };
    let arrays = s.bool();
    for _ in 0..depth {
        a = if arrays || s.bool() {
            MT::Arr(Box::new(a))
        } else {
            let mut v: Vec<MT> = (0..s.usize(3)).map(|_| gen_type_any(s, 0)).collect();
            let i = s.usize(v.len() + 1);
            v.insert(i, a);
            MT::Tup(v)
        };
    }
    let mut b = a.clone();
    for _ in 0..s.weighted(&[10, 70, 20]) {
        b = change_one(s, &b);
    }
    ctx.input = show_t(&[&a, &b]);
    ctx.nontrivial = a.size() > 4;
    ctx.label(if depth > 20 { "deep" } else { "shallow" });
    ctx.label(if a == b {
        "same"
    } else if MT::compatible(&a, &b) {
        "compatible"
    } else {
        "incompatible"
    });
    c10_pair(&a, &b)?;
    let c = change_one(s, &a);
    c10_pair(&b, &c)
}

fn c10_triples(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = s.range(0, 5);
    let a = gen_type_big(s, d);
    let b = near(s, &a);
    let c = if s.bool() { near(s, &b) } else { near(s, &a) };
    ctx.input = show_t(&[&a, &b, &c]);
    ctx.nontrivial = a.size() > 1;
    c10_pair(&a, &b)?;
    c10_pair(&b, &c)?;
    c10_pair(&a, &c)?;
    // Associativity, through the code under test alone.
    let (x, y, z) = (a.to_over(), b.to_over(), c.to_over());
    let l = Type::most_specific(&x, &y).and_then(|(t, _)| spec(&t, &z));
    let r = Type::most_specific(&y, &z).and_then(|(t, _)| spec(&x, &t));
    ensure!(l == r, "most_specific is not associative: {:?}, {:?}", l, r);
    ctx.label(if l.is_some() { "joinable" } else { "not joinable" });
    Ok(())
}

// --------------------------------------------------------------------------------------------- C17

pub fn type_name(t: &MT) -> String {
    match t {
        MT::Arr(t) => format!("Arr({})", type_name(t)),
        MT::Tup(v) => format!("Tup({})", v.iter().map(type_name).collect::<Vec<_>>().join(", ")),
        t => format!("{:?}", t),
    }
}

fn mismatch<T: std::fmt::Debug>(what: &str, r: Result<T, OverError>, want: &MT, have: &MT) -> CaseResult {
    match r {
        Err(OverError::TypeMismatch(a, b)) => {
            ensure!(MT::from_over(&a) == *want, "{}: the error names {:?} as expected, not {:?}", what, a, want);
            ensure!(MT::from_over(&b) == *have, "{}: the error names {:?} as found, not {:?}", what, b, have);
            let msg = OverError::TypeMismatch(a, b).to_string();
            ensure!(msg.contains(&type_name(want)) && msg.contains(&type_name(have)), "{}: the message {:?} does not name both types", what, msg);
            Ok(())
        }
        r => Err(format!("{}: {:?} instead of a type mismatch", what, r)),
    }
}

fn any_arr() -> MT {
    MT::Arr(Box::new(MT::Any))
}

/// Checks all getters of a value, given as results.
#[allow(clippy::too_many_arguments)]
fn check_getters(
    what: &str,
    m: &MV,
    v: &Value,
    b: Result<bool, OverError>,
    i: Result<BigInt, OverError>,
    f: Result<BigRational, OverError>,
    st: Result<String, OverError>,
    a: Result<Arr, OverError>,
    t: Result<Tup, OverError>,
    o: Result<Obj, OverError>,
) -> CaseResult {
    let ty = m.ty();
    let w = |g: &str| format!("{}{}", what, g);
    // Each gives what is there, and only that.
    for (g, ok, want) in [
        ("get_bool", b.is_ok(), matches!(m, MV::Bool(_))),
        ("get_int", i.is_ok(), matches!(m, MV::Int(_))),
        ("get_frac", f.is_ok(), matches!(m, MV::Int(_) | MV::Frac(_))),
        ("get_str", st.is_ok(), matches!(m, MV::Str(_))),
        ("get_arr", a.is_ok(), matches!(m, MV::Arr(_))),
        ("get_tup", t.is_ok(), matches!(m, MV::Tup(_))),
        ("get_obj", o.is_ok(), matches!(m, MV::Obj(_))),
    ] {
        ensure!(ok == want, "{} on a value of type {:?} {}", w(g), ty, if ok { "gives a value" } else { "is an error" });
    }
    match (m, b) {
        (MV::Bool(x), Ok(y)) => ensure!(*x == y, "{} gave {}", w("get_bool"), y),
        (_, r) => mismatch(&w("get_bool"), r, &MT::Bool, &ty)?,
    }
    match (m, i) {
        (MV::Int(x), Ok(y)) => ensure!(*x == y, "{} gave {}", w("get_int"), y),
        (_, r) => mismatch(&w("get_int"), r, &MT::Int, &ty)?,
    }
    match (m, f) {
        (MV::Frac(x), Ok(y)) => ensure!(x.numer() == y.numer() && x.denom() == y.denom(), "{} gave {}", w("get_frac"), y),
        (MV::Int(x), Ok(y)) => ensure!(x == y.numer() && y.denom().is_one(), "{} gave {}", w("get_frac"), y),
        (_, r) => mismatch(&w("get_frac"), r, &MT::Frac, &ty)?,
    }
    match (m, st) {
        (MV::Str(x), Ok(y)) => ensure!(**x == *y, "{} gave {:?}", w("get_str"), y),
        (_, r) => mismatch(&w("get_str"), r, &MT::Str, &ty)?,
    }
    match (m, v, a) {
        (MV::Arr(_), Value::Arr(x), Ok(y)) => {
            cmp_val(m, &Value::Arr(y.clone()))?;
            ensure!(x.ptr_eq(&y), "{} gave another instance", w("get_arr"));
        }
        (_, _, r) => mismatch(&w("get_arr"), r, &any_arr(), &ty)?,
    }
    match (m, v, t) {
        (MV::Tup(_), Value::Tup(x), Ok(y)) => {
            cmp_val(m, &Value::Tup(y.clone()))?;
            ensure!(x.ptr_eq(&y), "{} gave another instance", w("get_tup"));
        }
        (_, _, r) => mismatch(&w("get_tup"), r, &MT::Tup(vec![]), &ty)?,
    }
    match (m, v, o) {
        (MV::Obj(x), Value::Obj(z), Ok(y)) => {
            cmp_obj(x, &y)?;
            ensure!(z.ptr_eq(&y), "{} gave another instance", w("get_obj"));
        }
        (_, _, r) => mismatch(&w("get_obj"), r, &MT::Obj, &ty)?,
    }
    Ok(())
}

fn check_value_getters(what: &str, m: &MV, v: &Value) -> CaseResult {
    ensure!(v.is_null() == matches!(m, MV::Null), "{}is_null is {}", what, v.is_null());
    let t = MT::from_over(&v.get_type());
    ensure!(t == m.ty(), "{}get_type is {:?}, expected {:?}", what, t, m.ty());
    ensure!(v.get_type().to_string() == type_name(&m.ty()), "{}get_type displays as {}", what, v.get_type());
    check_getters(what, m, v, v.get_bool(), v.get_int(), v.get_frac(), v.get_str(), v.get_arr(), v.get_tup(), v.get_obj())
}

fn check_index(m: &MV, v: &Value) -> CaseResult {
    let (vals, get): (&[MV], Box<dyn Fn(usize) -> Result<Value, OverError>>) = match (m, v) {
        (MV::Arr(m), Value::Arr(a)) => (&m.vals, Box::new(move |i| a.get(i))),
        (MV::Tup(m), Value::Tup(a)) => (m, Box::new(move |i| a.get(i))),
        _ => return Ok(()),
    };
    for (i, x) in vals.iter().enumerate() {
        let got = get(i).map_err(|e| format!("get({}) of {} elements: {}", i, vals.len(), e))?;
        cmp_val(x, &got)?;
    }
    let n = vals.len();
    for i in [n, n + 1, n + 7, n + (1 << 32), usize::max_value() - 1, usize::max_value()] {
        match (m, get(i)) {
            (MV::Arr(_), Err(OverError::ArrOutOfBounds(k))) | (MV::Tup(_), Err(OverError::TupOutOfBounds(k))) => {
                ensure!(k == i, "get({}) of {} elements names the index {}", i, n, k)
            }
            (_, r) => return Err(format!("get({}) of {} elements is {:?}", i, n, r)),
        }
    }
    Ok(())
}

fn c17_value(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).value(s, 2, None);
    ctx.input = show_mv(&m);
    ctx.nontrivial = true;
    let v = build(&m)?;
    check_value_getters("", &m, &v)?;
    check_index(&m, &v)
}

fn c17_field(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut g = VG::new(s);
    let mut o = g.obj(s, 1);
    // At least some inheritance.
    for _ in 0..s.usize(3) {
        let n = s.usize(3);
        let mut pairs: Vec<(String, MV)> = vec![];
        for _ in 0..n {
            let name = fresh_name(s, &|n| pairs.iter().any(|(m, _)| m == n));
            pairs.push((name, g.value(s, 2, None)));
        }
        o = Rc::new(MObj { pairs, parent: Some(o) });
    }
    ctx.input = show_mv(&MV::Obj(o.clone()));
    ctx.nontrivial = true;
    let r = build_obj(&o)?;
    let mut names: Vec<String> = vec![];
    let mut cur = Some(o.clone());
    while let Some(p) = cur {
        names.extend(p.pairs.iter().map(|x| x.0.clone()));
        cur = p.parent.clone();
    }
    names.truncate(30);
    for n in &names {
        let (m, up) = o.lookup(n).unwrap();
        ctx.label(if up > 0 { "inherited" } else { "own" });
        let v = r.get(n).ok_or_else(|| format!("get({}) is None", n))?;
        let what = format!("field {}: ", n);
        check_getters(&what, m, &v, r.get_bool(n), r.get_int(n), r.get_frac(n), r.get_str(n), r.get_arr(n), r.get_tup(n), r.get_obj(n))?;
        check_value_getters(&what, m, &v)?;
    }
    let gone = match s.below(4) {
        0 => String::new(),
        1 => "^".into(),
        2 => gen_string(s),
        _ => fresh_name(s, &|n| names.iter().any(|m| m == n)),
    };
    if o.lookup(&gone).is_none() {
        ensure!(r.get(&gone).is_none(), "get({:?}) is not None", gone);
        ensure!(r.get_with_source(&gone).is_none(), "get_with_source({:?}) is not None", gone);
        let e = [
            r.get_bool(&gone).err(),
            r.get_int(&gone).err(),
            r.get_frac(&gone).err(),
            r.get_str(&gone).err(),
            r.get_arr(&gone).err(),
            r.get_tup(&gone).err(),
            r.get_obj(&gone).err(),
        ];
        for e in e.iter() {
            match e {
                Some(OverError::FieldNotFound(f)) if *f == gone => {
                    let msg = OverError::FieldNotFound(f.clone()).to_string();
                    ensure!(msg.contains(&gone), "the message {:?} does not name the field", msg);
                }
                e => return Err(format!("a getter of the absent field {:?} gives {:?}", gone, e)),
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C18

fn eq_both(a: &Value, b: &Value, want: bool, what: &str) -> CaseResult {
    let all = [a == b, b == a, !(a != b), !(b != a)];
    ensure!(all.iter().all(|x| *x == want), "{}: equality is {:?}, expected {}: {} and {}", what, all, want, show_val(a), show_val(b));
    // The containers' own equality, and their comparison with values.
    match (a, b) {
        (Value::Arr(x), Value::Arr(y)) => {
            let all = [x == y, y == x, *a == *y, *x == *b];
            ensure!(all.iter().all(|x| *x == want), "{}: equality of the arrays is {:?}, expected {}", what, all, want);
        }
        (Value::Tup(x), Value::Tup(y)) => {
            let all = [x == y, y == x, *a == *y, *x == *b];
            ensure!(all.iter().all(|x| *x == want), "{}: equality of the tuples is {:?}, expected {}", what, all, want);
        }
        (Value::Obj(x), Value::Obj(y)) => {
            let all = [x == y, y == x, *a == *y, *x == *b];
            ensure!(all.iter().all(|x| *x == want), "{}: equality of the objects is {:?}, expected {}", what, all, want);
        }
        _ => {}
    }
    Ok(())
}

fn c18_same(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).value(s, 1, None);
    ctx.input = show_mv(&m);
    ctx.nontrivial = m.size() > 1;
    let a = build(&m)?;
    let b = build_unshared(&m)?;
    let text = format!("r: {}", plain(&m));
    let c = parse(&text)?.map_err(|e| format!("rejected: {}", e))?.get("r").ok_or("no field r")?;
    // Through references: every element named first.
    let d = match &m {
        MV::Arr(x) if !x.vals.is_empty() => refs(&x.vals, '[', ']')?,
        MV::Tup(x) if !x.is_empty() => refs(x, '(', ')')?,
        _ => a.clone(),
    };
    let all = [("shared", &a), ("unshared", &b), ("read", &c), ("by reference", &d)];
    for (n, x) in all.iter() {
        for (k, y) in all.iter() {
            eq_both(x, y, true, &format!("{} and {}", n, k))?;
        }
    }
    Ok(())
}

pub fn refs(v: &[MV], a: char, b: char) -> Result<Value, String> {
    let mut t = String::new();
    let mut e = vec![];
    for (i, x) in v.iter().enumerate() {
        t.push_str(&format!("@v{}: {}\n", i, plain(x)));
        e.push(format!("@v{}", i));
    }
    t.push_str(&format!("r: {}{}{}", a, e.join(" "), b));
    parse(&t)?.map_err(|e| format!("rejected: {}: {}", e, t))?.get("r").ok_or("no field r".into())
}

/// The value with one difference; None if the place chosen cannot be changed so.
pub fn change(s: &mut Src, v: &MV, l: &mut &'static str) -> Option<MV> {
    let kids = match v {
        MV::Arr(a) => a.vals.len(),
        MV::Tup(a) => a.len(),
        MV::Obj(o) => o.pairs.len() + o.parent.is_some() as usize,
        _ => 0,
    };
    if kids > 0 && s.chance(7, 10) {
        // Deeper.
        let i = s.usize(kids);
        return match v {
            MV::Arr(a) => {
                let mut e = a.vals.clone();
                e[i] = change(s, &e[i], l)?;
                MV::arr(e)
            }
            MV::Tup(a) => {
                let mut e = a.to_vec();
                e[i] = change(s, &e[i], l)?;
                Some(MV::tup(e))
            }
            MV::Obj(o) => {
                if i == o.pairs.len() {
                    let p = match change(s, &MV::Obj(o.parent.clone()?), l)? {
                        MV::Obj(p) => p,
                        // A parent can only be an object.
                        _ => return None,
                    };
                    return Some(MV::obj(o.pairs.clone(), Some(p)));
                }
                let mut f = o.pairs.clone();
                f[i].1 = change(s, &f[i].1, l)?;
                Some(MV::obj(f, o.parent.clone()))
            }
            _ => None,
        };
    }
    // Here.
    if s.chance(1, 6) {
        *l = "kind";
        return Some(match v {
            MV::Null => s.pick(&[MV::Bool(false), MV::int(0), MV::str(""), MV::str("null"), MV::obj(vec![], None)]).clone(),
            MV::Bool(b) => s.pick(&[MV::int(*b as i64), MV::Null, MV::str(if *b { "true" } else { "false" })]).clone(),
            MV::Int(i) => s.pick(&[MV::Frac(BigRational::new(i.clone(), BigInt::one())), MV::str(&i.to_string()), MV::Null]).clone(),
            MV::Frac(f) => s.pick(&[MV::Int(f.to_integer()), MV::str(&f.to_string()), MV::Null]).clone(),
            MV::Str(x) => s.pick(&[MV::Null, MV::tup(vec![MV::Str(x.clone())]), MV::int(0)]).clone(),
            MV::Arr(a) => MV::tup(a.vals.clone()),
            MV::Tup(a) => MV::arr(a.to_vec()).unwrap_or(MV::Null),
            MV::Obj(o) => s.pick(&[MV::Null, MV::tup(vec![v.clone()]), MV::tup(o.pairs.iter().map(|p| p.1.clone()).collect())]).clone(),
        });
    }
    *l = "content";
    Some(match v {
        MV::Null => MV::Bool(false),
        MV::Bool(b) => MV::Bool(!b),
        MV::Int(i) => MV::Int(match s.below(4) {
            0 => i + BigInt::one(),
            1 => {
                if i.is_zero() {
                    BigInt::one()
                } else {
                    -i.clone()
                }
            }
            2 => i + (BigInt::one() << 64),
            _ => i + (BigInt::one() << 32),
        }),
        MV::Frac(f) => MV::Frac(match s.below(3) {
            0 => f + BigRational::one(),
            1 => f + BigRational::new(BigInt::one(), pow10(30)),
            _ => {
                if f.is_zero() {
                    BigRational::one()
                } else {
                    -f.clone()
                }
            }
        }),
        MV::Str(x) => {
            let mut c: Vec<char> = x.chars().collect();
            let i = s.usize(c.len() + 1);
            match s.below(3) {
                0 if i < c.len() => {
                    c.remove(i);
                }
                1 if i < c.len() => c[i] = if c[i] == 'x' { 'y' } else { 'x' },
                _ => c.insert(i, *s.pick(&[' ', 'x', '\0', '\n', '\u{301}'])),
            }
            MV::str(&c.into_iter().collect::<String>())
        }
        MV::Arr(a) => return MV::arr(change_seq(s, &a.vals)?),
        MV::Tup(a) => MV::tup(change_seq(s, a)?),
        MV::Obj(o) => {
            let mut f = o.pairs.clone();
            let mut parent = o.parent.clone();
            match s.below(6) {
                0 if !f.is_empty() => {
                    *l = "field removed";
                    let i = s.usize(f.len());
                    f.remove(i);
                }
                1 if !f.is_empty() => {
                    *l = "field renamed";
                    let i = s.usize(f.len());
                    let n = fresh_name(s, &|n| f.iter().any(|(m, _)| m == n));
                    f[i].0 = n;
                }
                2 | 3 => match parent.take() {
                    Some(p) => {
                        *l = "parent removed or skipped";
                        if s.bool() {
                            parent = p.parent.clone();
                        }
                    }
                    None => {
                        *l = "parent added";
                        parent = Some(Rc::new(MObj {
                            pairs: match s.below(3) {
                                0 => vec![],
                                1 => f.clone(),
                                _ => vec![("zz".into(), MV::Null)],
                            },
                            parent: None,
                        }));
                    }
                },
                4 if parent.is_some() => {
                    *l = "parent doubled";
                    parent = Some(Rc::new(MObj { pairs: vec![], parent: parent.take() }));
                }
                _ => {
                    *l = "field added";
                    let i = s.usize(f.len() + 1);
                    let n = fresh_name(s, &|n| f.iter().any(|(m, _)| m == n));
                    let v = s.pick(&[MV::Null, MV::int(1), MV::arr(vec![]).unwrap()]).clone();
                    f.insert(i, (n, v));
                }
            }
            MV::obj(f, parent)
        }
    })
}
fn change_seq(s: &mut Src, v: &[MV]) -> Option<Vec<MV>> {
    let mut e = v.to_vec();
    match s.below(5) {
        0 if !e.is_empty() => {
            let i = s.usize(e.len());
            e.remove(i);
        }
        1 if e.len() >= 2 => {
            let i = s.usize(e.len());
            let j = s.usize(e.len());
            if e[i].same(&e[j]) {
                return None;
            }
            e.swap(i, j);
        }
        2 if !e.is_empty() => e = vec![MV::tup(v.to_vec())],
        3 if !e.is_empty() => {
            // A copy of an element more.
            let i = s.usize(e.len());
            let c = e[i].clone();
            let j = s.usize(e.len() + 1);
            e.insert(j, c);
        }
        _ => {
            let i = s.usize(e.len() + 1);
            let c = match e.first() {
                Some(MV::Int(_)) => MV::int(0),
                Some(MV::Str(_)) => MV::str(""),
                Some(MV::Bool(_)) => MV::Bool(false),
                Some(MV::Frac(_)) => MV::Frac(BigRational::zero()),
                Some(MV::Arr(_)) => MV::arr(vec![]).unwrap(),
                Some(MV::Obj(_)) => MV::obj(vec![], None),
                _ => MV::Null,
            };
            e.insert(i, c);
        }
    }
    Some(e)
}

/// Equal but for the order of fields somewhere.
pub fn same_unordered(a: &MV, b: &MV) -> bool {
    match (a, b) {
        (MV::Arr(x), MV::Arr(y)) => x.vals.len() == y.vals.len() && x.vals.iter().zip(&y.vals).all(|(p, q)| same_unordered(p, q)),
        (MV::Tup(x), MV::Tup(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_unordered(p, q)),
        (MV::Obj(x), MV::Obj(y)) => {
            x.pairs.len() == y.pairs.len()
                && x.pairs.iter().all(|(n, v)| y.own(n).map_or(false, |w| same_unordered(v, w)))
                && match (&x.parent, &y.parent) {
                    (None, None) => true,
                    (Some(p), Some(q)) => same_unordered(&MV::Obj(p.clone()), &MV::Obj(q.clone())),
                    _ => false,
                }
        }
        _ => a.same(b),
    }
}

fn c18_changed(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).value(s, 1, None);
    let mut l = "";
    let c = match change(s, &m, &mut l) {
        Some(c) => c,
        None => {
            ctx.label("no change");
            return Ok(());
        }
    };
    ctx.input = format!("{}  /  {}", show_mv(&m), show_mv(&c));
    if same_unordered(&m, &c) {
        ctx.label("no change");
        return Ok(());
    }
    ctx.label(l);
    ctx.nontrivial = m.size() > 1;
    // Built together, so that unchanged parts share their instances, or apart.
    let mut b = Builder::default();
    b.share = s.bool();
    let x = b.val(&m)?;
    let y = if s.bool() { b.val(&c)? } else { build_unshared(&c)? };
    eq_both(&x, &y, false, "values that differ")
}

/// Long values of one kind, which differ in one place or not at all.
fn c18_long(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let kind = s.usize(6);
    let most = [20_000, 3_000, 3_000, 3_000, 1_500, 1_500][kind];
    let n = match s.below(4) {
        0 => s.range(1, 60),
        1 => s.near(9, most) as usize,
        _ => s.range(60, most as usize),
    };
    let differ = s.chance(4, 5);
    let at = match s.below(4) {
        0 => n - 1,
        1 => n / 2,
        _ => s.usize(n),
    };
    let name_differs = s.bool();
    let k = s.usize(100);
    let mk = |x: bool| -> MV {
        let hit = |i: usize| x && i == at;
        match kind {
            0 => MV::str(&(0..n).map(|i| if hit(i) { 'Z' } else { (b'a' + ((i + k) % 25) as u8) as char }).collect::<String>()),
            1 | 2 => {
                let t: String = (0..n).map(|i| if hit(i) { '9' } else { (b'1' + ((i + k) % 7) as u8) as char }).collect();
                let v: BigInt = t.parse().expect("HARNESS ERROR: digits");
                if kind == 1 {
                    MV::Int(v)
                } else {
                    MV::Frac(BigRational::new(v, BigInt::from(7919)))
                }
            }
            3 => MV::arr((0..n).map(|i| MV::int(if hit(i) { -1 } else { (i + k) as i64 })).collect()).expect("HARNESS ERROR: ints"),
            4 => MV::tup((0..n).map(|i| if hit(i) { MV::Null } else { MV::int((i + k) as i64) }).collect()),
            _ => MV::obj(
                (0..n)
                    .map(|i| {
                        let named = hit(i) && name_differs;
                        (format!("{}{}", if named { 'g' } else { 'f' }, i), MV::int(if hit(i) && !named { -1 } else { i as i64 }))
                    })
                    .collect(),
                None,
            ),
        }
    };
    let (m, c) = (mk(false), mk(differ));
    ctx.label(["Str", "Int", "Frac", "Arr", "Tup", "Obj"][kind]);
    ctx.label_if(n > 1000, "over 1000");
    ctx.label(if differ { "different" } else { "equal" });
    ctx.input = format!("kind {} length {} at {} different {} {}", kind, n, at, differ, name_differs);
    publish_input(&ctx.input);
    ctx.nontrivial = n > 1;
    let (mut x, mut y) = (build(&m)?, build_unshared(&c)?);
    // Within something, too.
    if s.chance(1, 3) {
        let wrap = |v: Value| -> Value { Tup::from_values(vec![Value::Null, v]).into() };
        x = wrap(x);
        y = wrap(y);
    }
    let all = [x == y, y == x, !(x != y), !(y != x)];
    ensure!(all.iter().all(|r| *r != differ), "equality is {:?}, expected {}", all, !differ);
    Ok(())
}

/// Unrelated values.
fn c18_others(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.range(2, 5);
    let ms: Vec<MV> = (0..n)
        .map(|_| {
            let mut g = VG::new(s);
            g.budget = 4;
            g.value(s, 3, None)
        })
        .collect();
    ctx.input = show_mv(&MV::tup(ms.clone()));
    ctx.nontrivial = ms.iter().any(|m| m.size() > 1);
    let vs = ms.iter().map(build).collect::<Result<Vec<_>, _>>()?;
    for i in 0..n {
        for j in 0..n {
            if !ms[i].same(&ms[j]) && same_unordered(&ms[i], &ms[j]) {
                continue;
            }
            eq_both(&vs[i], &vs[j], ms[i].same(&ms[j]), "values")?;
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C19

/// What the model knows of an instance.
struct Node {
    kids: Vec<Option<usize>>,
    names: Vec<String>,
    parent: Option<usize>,
    refs: usize,
    id: usize,
}

fn refs_of(v: &Value) -> Option<(usize, usize)> {
    match v {
        Value::Arr(a) => Some((a.id(), a.num_references())),
        Value::Tup(a) => Some((a.id(), a.num_references())),
        Value::Obj(a) => Some((a.id(), a.num_references())),
        _ => None,
    }
}
fn same_instance(a: &Value, b: &Value) -> Option<bool> {
    match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => Some(a.ptr_eq(b)),
        (Value::Tup(a), Value::Tup(b)) => Some(a.ptr_eq(b)),
        (Value::Obj(a), Value::Obj(b)) => Some(a.ptr_eq(b)),
        _ => None,
    }
}

#[derive(Default)]
struct World {
    nodes: Vec<Node>,
    /// A handle, and the instance it is a handle of.
    handles: Vec<(Value, Option<usize>)>,
    ids: HashMap<usize, usize>,
}
impl World {
    fn unref(&mut self, n: usize) {
        let mut todo = vec![n];
        while let Some(n) = todo.pop() {
            self.nodes[n].refs -= 1;
            if self.nodes[n].refs == 0 {
                todo.extend(self.nodes[n].kids.iter().filter_map(|k| *k));
                todo.extend(self.nodes[n].parent);
            }
        }
    }
    fn hold(&mut self, v: Value, n: Option<usize>) {
        if let Some(n) = n {
            self.nodes[n].refs += 1;
        }
        self.handles.push((v, n));
    }
    /// A new instance made of copies of these handles.
    fn create(&mut self, v: Value, kids: Vec<Option<usize>>, names: Vec<String>, parent: Option<usize>) -> CaseResult {
        let (id, _) = refs_of(&v).ok_or("HARNESS ERROR: not a container")?;
        for k in kids.iter().flatten().chain(parent.iter()) {
            self.nodes[*k].refs += 1;
        }
        let n = self.nodes.len();
        if let Some(old) = self.ids.insert(id, n) {
            return Err(format!("a new instance got the ID {} of an earlier one ({})", id, old));
        }
        self.nodes.push(Node { kids, names, parent, refs: 0, id });
        self.hold(v, Some(n));
        Ok(())
    }
    fn check(&self, what: &str) -> CaseResult {
        for (v, n) in &self.handles {
            match (refs_of(v), n) {
                (None, None) => {}
                (Some((id, refs)), Some(n)) => {
                    let w = &self.nodes[*n];
                    ensure!(id == w.id, "{}: an instance's ID is {}, was {}", what, id, w.id);
                    ensure!(refs == w.refs, "{}: {} has {} references, expected {}", what, show_val(v), refs, w.refs);
                }
                _ => return Err(format!("{}: {} is not what the model says", what, show_val(v))),
            }
        }
        Ok(())
    }
    fn check_pairs(&self) -> CaseResult {
        for (v, n) in &self.handles {
            for (w, m) in &self.handles {
                if let Some(p) = same_instance(v, w) {
                    ensure!(p == (n == m), "ptr_eq is {} for {} and {}", p, show_val(v), show_val(w));
                }
            }
        }
        Ok(())
    }
}

fn c19_history(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut w = World::default();
    let most = [10, 25, 60][s.weighted(&[30, 50, 20])];
    let steps = s.range(1, most);
    let mut log = String::new();
    w.hold(Value::Int(BigInt::from(1)), None);
    w.hold(Value::Str("s".into()), None);
    for step in 0..steps {
        let what = s.span(|s| -> Result<&'static str, String> {
            let some = |s: &mut Src, w: &World, max: usize| -> Vec<usize> {
                let n = s.usize(max + 1);
                (0..n).map(|_| s.usize(w.handles.len())).collect()
            };
            let op = s.weighted(&[12, 14, 16, 6, 18, 14, 16, 6, 6, 4]);
            if w.handles.is_empty() && op != 3 {
                return Ok("nothing");
            }
            Ok(match op {
                0 if !w.handles.is_empty() => {
                    // An array of copies of one handle.
                    let h = s.usize(w.handles.len());
                    let n = s.usize(4);
                    let (v, k) = w.handles[h].clone();
                    let a = Arr::from_values(vec![v.clone(); n]).map_err(|e| format!("one value repeated is rejected: {}", e))?;
                    drop(v);
                    w.create(Value::Arr(a), vec![k; n], vec![], None)?;
                    "array"
                }
                1 if !w.handles.is_empty() => {
                    let hs = some(s, &w, 4);
                    let vals = hs.iter().map(|h| w.handles[*h].0.clone()).collect();
                    let kids = hs.iter().map(|h| w.handles[*h].1).collect();
                    let t = if s.bool() { Tup::from_values(vals) } else { Tup::from(vals) };
                    w.create(Value::Tup(t), kids, vec![], None)?;
                    "tuple"
                }
                2 if !w.handles.is_empty() => {
                    let hs = some(s, &w, 4);
                    let names: Vec<String> = (0..hs.len()).map(|i| format!("f{}", i)).collect();
                    let pairs: Vec<Pair> = hs.iter().zip(&names).map(|(h, n)| Pair(n.clone(), w.handles[*h].0.clone())).collect();
                    let kids = hs.iter().map(|h| w.handles[*h].1).collect();
                    let objs: Vec<usize> = (0..w.handles.len()).filter(|h| matches!(w.handles[*h].0, Value::Obj(_))).collect();
                    let (p, pn) = if !objs.is_empty() && s.bool() {
                        let h = *s.pick(&objs);
                        (w.handles[h].0.get_obj().ok(), w.handles[h].1)
                    } else {
                        (None, None)
                    };
                    let o = if s.chance(1, 3) {
                        Obj::from_pairs_unchecked(pairs, p)
                    } else {
                        Obj::from_pairs(pairs, p).map_err(|e| format!("legal fields rejected: {}", e))?
                    };
                    w.create(Value::Obj(o), kids, names, pn)?;
                    "object"
                }
                3 => {
                    let v = match s.below(6) {
                        0 => Value::Arr(Arr::empty()),
                        1 => Value::Arr(Arr::default()),
                        2 => Value::Tup(Tup::empty()),
                        3 => Value::Tup(Tup::default()),
                        4 => Value::Obj(Obj::empty()),
                        _ => Value::Obj(Obj::default()),
                    };
                    w.create(v, vec![], vec![], None)?;
                    "empty"
                }
                4 => {
                    let h = s.usize(w.handles.len());
                    let (v, n) = w.handles[h].clone();
                    w.hold(v, n);
                    "clone"
                }
                5 => {
                    let h = s.usize(w.handles.len());
                    let (v, n) = w.handles.swap_remove(h);
                    drop(v);
                    if let Some(n) = n {
                        w.unref(n);
                    }
                    "drop"
                }
                6 => {
                    // Take an element or field out.
                    let h = s.usize(w.handles.len());
                    let (v, n) = w.handles[h].clone();
                    let n = match n {
                        Some(n) if !w.nodes[n].kids.is_empty() => n,
                        _ => return Ok("nothing"),
                    };
                    let i = s.usize(w.nodes[n].kids.len());
                    let k = w.nodes[n].kids[i];
                    let x = match &v {
                        Value::Arr(a) if s.bool() => a.iter().nth(i).cloned().ok_or("no element")?,
                        Value::Arr(a) => a.get(i).map_err(|e| e.to_string())?,
                        Value::Tup(a) if s.bool() => a.values_ref()[i].clone(),
                        Value::Tup(a) => a.get(i).map_err(|e| e.to_string())?,
                        Value::Obj(o) => o.get(&w.nodes[n].names[i]).ok_or("no field")?,
                        _ => return Ok("nothing"),
                    };
                    drop(v);
                    w.hold(x, k);
                    "get"
                }
                7 => {
                    let h = s.usize(w.handles.len());
                    let o = match w.handles[h].0.get_obj() {
                        Ok(o) => o,
                        Err(_) => return Ok("nothing"),
                    };
                    let n = w.handles[h].1.unwrap();
                    match (o.get_parent(), w.nodes[n].parent) {
                        (None, None) => "nothing",
                        (Some(p), Some(k)) => {
                            w.hold(Value::Obj(p), Some(k));
                            "parent"
                        }
                        _ => return Err("the parent is not as the model says".into()),
                    }
                }
                8 => {
                    // The value and its source.
                    let h = s.usize(w.handles.len());
                    let o = match w.handles[h].0.get_obj() {
                        Ok(o) => o,
                        Err(_) => return Ok("nothing"),
                    };
                    let name = format!("f{}", s.usize(4));
                    let mut cur = w.handles[h].1;
                    let mut want = None;
                    while let Some(n) = cur {
                        if let Some(i) = w.nodes[n].names.iter().position(|m| *m == name) {
                            want = Some((w.nodes[n].kids[i], n));
                            break;
                        }
                        cur = w.nodes[n].parent;
                    }
                    match (o.get_with_source(&name), want) {
                        (None, None) => "nothing",
                        (Some((v, src)), Some((k, n))) => {
                            w.hold(v, k);
                            w.hold(Value::Obj(src), Some(n));
                            "source"
                        }
                        _ => return Err("the lookup is not as the model says".into()),
                    }
                }
                _ => {
                    // Looking must not leave references behind.
                    let h = s.usize(w.handles.len());
                    let v = &w.handles[h].0;
                    let _ = v.to_string();
                    let _ = v.get_type();
                    let _ = *v == v.clone();
                    for (x, _) in &w.handles {
                        let _ = x == v;
                    }
                    if let Value::Obj(o) = v {
                        let _ = o.write_to_string();
                        let _ = o.iter().count();
                        let _ = Obj::from_str(&o.write_to_string());
                    }
                    "look"
                }
            })
        })?;
        log.push_str(what);
        log.push(' ');
        if w.handles.iter().any(|(v, _)| {
            let m = reify(v);
            m.size() > 2000
        }) {
            break;
        }
        ctx.input = log.clone();
        ctx.nontrivial = ctx.nontrivial || w.nodes.iter().any(|n| n.refs >= 2);
        w.check(&format!("step {}", step))?;
    }
    w.check_pairs()
}

/// All places inside a value, with the model's instance (by address) and the code's.
fn places(m: &MV, v: &Value, out: &mut Vec<(usize, usize, Value)>) {
    match (m, v) {
        (MV::Arr(a), Value::Arr(b)) => {
            out.push((Rc::as_ptr(a) as usize, b.id(), v.clone()));
            for (x, y) in a.vals.iter().zip(b.values_ref()) {
                places(x, y, out);
            }
        }
        (MV::Tup(a), Value::Tup(b)) => {
            out.push((Rc::as_ptr(a) as usize, b.id(), v.clone()));
            for (x, y) in a.iter().zip(b.values_ref()) {
                places(x, y, out);
            }
        }
        (MV::Obj(a), Value::Obj(b)) => {
            out.push((Rc::as_ptr(a) as usize, b.id(), v.clone()));
            places_in(a, b, out);
        }
        _ => {}
    }
}
fn places_in(a: &MObj, b: &Obj, out: &mut Vec<(usize, usize, Value)>) {
    for ((_, x), Pair(_, y)) in a.pairs.iter().zip(b.pairs_ref()) {
        places(x, y, out);
    }
    if let (Some(p), Some(q)) = (&a.parent, b.get_parent()) {
        out.push((Rc::as_ptr(p) as usize, q.id(), Value::Obj(q.clone())));
        places_in(p, &q, out);
    }
}

/// How many places hold each instance, each instance's own places counted once.
fn holders(m: &MObj) -> BTreeMap<usize, usize> {
    fn val(m: &MV, out: &mut BTreeMap<usize, usize>) {
        let k = match m {
            MV::Arr(a) => Rc::as_ptr(a) as usize,
            MV::Tup(a) => Rc::as_ptr(a) as usize,
            MV::Obj(a) => Rc::as_ptr(a) as usize,
            _ => return,
        };
        let c = out.entry(k).or_insert(0);
        *c += 1;
        if *c > 1 {
            return;
        }
        match m {
            MV::Arr(a) => a.vals.iter().for_each(|x| val(x, out)),
            MV::Tup(a) => a.iter().for_each(|x| val(x, out)),
            MV::Obj(a) => fields(a, out),
            _ => {}
        }
    }
    fn fields(o: &MObj, out: &mut BTreeMap<usize, usize>) {
        o.pairs.iter().for_each(|(_, x)| val(x, out));
        if let Some(p) = &o.parent {
            val(&MV::Obj(p.clone()), out);
        }
    }
    let mut out = BTreeMap::new();
    fields(m, &mut out);
    out
}

/// The instances in `o` are shared exactly as in `m`, and referred to by nothing else.
pub fn check_sharing(m: &MObj, o: &Obj, ctx: &mut Ctx) -> CaseResult {
    cmp_obj(m, o)?;
    let mut ps = vec![];
    places_in(m, o, &mut ps);
    let mut by_m: HashMap<usize, (usize, usize)> = HashMap::new();
    let mut by_id: HashMap<usize, usize> = HashMap::new();
    for (k, id, v) in &ps {
        let e = by_m.entry(*k).or_insert((*id, 0));
        e.1 += 1;
        ensure!(e.0 == *id, "one value named in several places has the IDs {} and {}: {}", e.0, id, show_val(v));
        let k2 = *by_id.entry(*id).or_insert(*k);
        ensure!(k2 == *k, "values written apart share the ID {}: {}", id, show_val(v));
    }
    ensure!(!by_id.contains_key(&o.id()), "the document shares its ID");
    for i in 0..ps.len().min(40) {
        for j in 0..ps.len().min(40) {
            if let Some(p) = same_instance(&ps[i].2, &ps[j].2) {
                ensure!(p == (ps[i].1 == ps[j].1), "ptr_eq is {} for the IDs {} and {}", p, ps[i].1, ps[j].1);
            }
        }
    }
    // Counts, without the handles of `ps`.
    let held = holders(m);
    let extra: HashMap<usize, usize> = by_m.iter().map(|(k, (_, n))| (*k, *n)).collect();
    for (k, _, v) in &ps {
        let (_, refs) = refs_of(v).unwrap();
        let want = held.get(k).cloned().unwrap_or(0) + extra[k];
        ensure!(refs == want, "{} has {} references, expected {}", show_val(v), refs as i64 - extra[k] as i64, want - extra[k]);
        ctx.nontrivial = ctx.nontrivial || held[k] > 1;
    }
    ensure!(o.num_references() == 1, "the document has {} references", o.num_references());
    Ok(())
}

fn c19_parsed(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::basic(s);
    c.refs = 20;
    c.globals = 6;
    c.exprs = 1;
    c.budget = c.budget.max(20);
    with_pantry(s, &mut c);
    let (text, m, _) = gen_doc(s, ctx, c, Some(Style::Spaced));
    let o = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    check_sharing(&m, &o, ctx)
}

/// A large container, named in many ways.
fn c19_large(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.below(3) {
        0 => s.range(0, 60),
        1 => s.near(9, 1_500) as usize,
        _ => s.range(60, 600),
    };
    let kind = s.usize(4);
    let ints: Vec<MV> = (0..n).map(|i| MV::int(i as i64)).collect();
    let pairs = |v: Vec<MV>| -> Vec<(String, MV)> { v.into_iter().enumerate().map(|(i, v)| (format!("x{}", i), v)).collect() };
    let big = match kind {
        0 => MV::arr(ints).expect("HARNESS ERROR: ints"),
        1 => MV::tup(ints),
        2 => MV::obj(pairs(ints), None),
        _ => MV::obj(vec![("y".into(), MV::int(1))], Some(Rc::new(MObj { pairs: pairs(ints), parent: None }))),
    };
    let mut text = format!("y: {}\n@g: y\n@o: {{p: 1 a: @g}}\n@h: {{^: @o}}\n@t: (1 @g)\n@l: [@g]\n", plain(&big));
    let mut fields = vec![("y".to_string(), big.clone())];
    for i in 0..s.range(1, 12) {
        let mut use_of = || s.pick(&["y", "@g", "@o.a", "@h.a", "@t.1", "@l.0"]).to_string();
        let (a, b) = (use_of(), use_of());
        let (t, v) = match s.below(5) {
            0 => (format!("({} {})", a, b), MV::tup(vec![big.clone(), big.clone()])),
            1 => (format!("[{} {}]", a, b), MV::arr(vec![big.clone(), big.clone()]).expect("HARNESS ERROR: one type")),
            2 => (format!("[{}]+[{}]", a, b), MV::arr(vec![big.clone(), big.clone()]).expect("HARNESS ERROR: one type")),
            3 if a != "y" => (format!("{{k: {}}}", a), MV::obj(vec![("k".into(), big.clone())], None)),
            _ => (a, big.clone()),
        };
        text.push_str(&format!("r{}: {}\n", i, t));
        fields.push((format!("r{}", i), v));
    }
    ctx.input = text.clone();
    publish_input(&text);
    ctx.label(["Arr", "Tup", "Obj", "parent"][kind]);
    ctx.label_if(n > 100, "over 100 elements");
    let m = MObj { pairs: fields, parent: None };
    let o = parse(&text)?.map_err(|e| format!("rejected: {}", e))?;
    check_sharing(&m, &o, ctx)
}

/// As many instances as small counters can count, and more.
fn c19_many(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.weighted(&[30, 30, 20, 10, 10]) {
        4 => s.near(9, 300_000) as usize,
        k => [100, 300, 70_000, 200_000][k] + s.usize(1000),
    };
    let kinds = 1 + s.usize(7);
    ctx.input = format!("{} instances of kinds {}", n, kinds);
    ctx.nontrivial = true;
    let mut ids = std::collections::HashSet::with_capacity(n);
    let mut held: Vec<Value> = vec![];
    for i in 0..n {
        let k = (i..i + 3).map(|k| k % 3).find(|k| kinds >> k & 1 == 1).unwrap_or(0);
        let v = match k {
            0 => Value::Arr(Arr::empty()),
            1 => Value::Tup(Tup::from_values(vec![])),
            _ => Value::Obj(Obj::empty()),
        };
        let id = refs_of(&v).ok_or("no container")?.0;
        ensure!(ids.insert(id), "instance {} has the ID of an earlier one: {}", i, id);
        if i % 997 == 0 {
            held.push(v);
        }
    }
    for (i, v) in held.iter().enumerate() {
        let r = refs_of(v).ok_or("no container")?;
        ensure!(ids.contains(&r.0) && r.1 == 1, "instance {} has another ID or count now", i);
    }
    Ok(())
}

fn c19_threads(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let threads = s.range(2, 6);
    let per = s.range(50, 1500);
    let shared = build(&MV::tup(vec![MV::int(1), MV::arr(vec![]).unwrap()]))?;
    let text = "a: {x: [1] y: ()} b: a ^: {c: a}";
    ctx.input = format!("{} threads, {} rounds", threads, per);
    ctx.nontrivial = true;
    let barrier = std::sync::Barrier::new(threads);
    let outs: Vec<(Vec<usize>, usize)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (shared, barrier) = (shared.clone(), &barrier);
                sc.spawn(move || {
                    let mut ids = vec![];
                    let mut kept = 0;
                    barrier.wait();
                    let mut hold = vec![];
                    for i in 0..per {
                        match (i + t) % 4 {
                            0 => ids.push(Arr::empty().id()),
                            1 => {
                                let t = Tup::from_values(vec![shared.clone(), shared.clone()]);
                                ids.push(t.id());
                                if i % 8 == 1 {
                                    kept += 2;
                                    hold.push(t);
                                }
                            }
                            2 => ids.push(Obj::empty().id()),
                            _ if i % 16 == 3 => {
                                if let Ok(o) = Obj::from_str(text) {
                                    ids.push(o.id());
                                    if let Ok(a) = o.get_obj("a") {
                                        ids.push(a.id());
                                        a.iter().for_each(|p| ids.extend(refs_of(&p.1).map(|r| r.0)));
                                    }
                                    ids.extend(o.get_parent().map(|p| p.id()));
                                }
                            }
                            _ => {
                                let c = shared.clone();
                                drop(c);
                            }
                        }
                    }
                    std::mem::forget(hold);
                    drop(shared);
                    (ids, kept)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut all: Vec<usize> = vec![];
    let mut kept = 0;
    for (ids, k) in outs {
        ensure!(!ids.is_empty(), "a thread panicked");
        all.extend(ids);
        kept += k;
    }
    let n = all.len();
    all.sort_unstable();
    all.dedup();
    ensure!(all.len() == n, "{} of {} instances share an ID with another", n - all.len(), n);
    let (_, refs) = refs_of(&shared).unwrap();
    ensure!(refs == 1 + kept, "the shared value has {} references, expected {}", refs, 1 + kept);
    Ok(())
}

// --------------------------------------------------------------------------------------------- C23

fn list_of(s: &mut Src) -> Vec<MV> {
    let mut g = VG::new(s);
    let n = s.size(24);
    (0..n).map(|_| g.value(s, 4, None)).collect()
}

fn same_list<'a>(what: &str, want: &[MV], got: impl Iterator<Item = &'a Value>) -> CaseResult {
    let got: Vec<&Value> = got.collect();
    ensure!(got.len() == want.len(), "{} presents {} values, expected {}", what, got.len(), want.len());
    for (i, (m, v)) in want.iter().zip(got).enumerate() {
        cmp_val(m, v).map_err(|e| format!("{}, value {}: {}", what, i, e))?;
    }
    Ok(())
}

/// Names that are nearly `n`.
pub fn beside(n: &str) -> Vec<String> {
    if n.len() > 100 {
        return vec![];
    }
    let mut cs: Vec<char> = n.chars().collect();
    let mut v = vec![format!("{}_", n), format!(" {}", n), format!("{}.", n), format!("{}0", n), n.to_uppercase(), n.to_lowercase()];
    let half: String = cs.iter().take(cs.len() / 2).collect();
    v.push(half);
    if let Some(c) = cs.pop() {
        v.push(cs.iter().collect());
        v.push(cs.iter().collect::<String>() + &char::from_u32(c as u32 ^ 1).unwrap_or('q').to_string());
    }
    v
}

fn check_views(m: &MV, v: &Value) -> CaseResult {
    match (m, v) {
        (MV::Arr(m), Value::Arr(a)) => {
            let want = &m.vals;
            ensure!(a.len() == want.len(), "len is {}, expected {}", a.len(), want.len());
            ensure!(a.is_empty() == want.is_empty(), "is_empty is {}", a.is_empty());
            same_list("iter", want, a.iter())?;
            same_list("values_ref", want, a.values_ref().iter())?;
            let mut each = vec![];
            a.with_each(|v| each.push(v.clone()));
            same_list("with_each", want, each.iter())?;
            let got: Result<Vec<Value>, _> = (0..a.len()).map(|i| a.get(i)).collect();
            same_list("get", want, got.map_err(|e| e.to_string())?.iter())?;
            ensure!(a.get(want.len()).is_err(), "there is an element past the end");
        }
        (MV::Tup(want), Value::Tup(a)) => {
            ensure!(a.len() == want.len(), "len is {}, expected {}", a.len(), want.len());
            ensure!(a.is_empty() == want.is_empty(), "is_empty is {}", a.is_empty());
            same_list("iter", want, a.iter())?;
            same_list("values_ref", want, a.values_ref().iter())?;
            let mut each = vec![];
            a.with_each(|v| each.push(v.clone()));
            same_list("with_each", want, each.iter())?;
            let got: Result<Vec<Value>, _> = (0..a.len()).map(|i| a.get(i)).collect();
            same_list("get", want, got.map_err(|e| e.to_string())?.iter())?;
            ensure!(a.get(want.len()).is_err(), "there is an element past the end");
            let ts: Vec<MT> = a.inner_type_vec().iter().map(MT::from_over).collect();
            ensure!(ts == want.iter().map(MV::ty).collect::<Vec<_>>(), "inner_type_vec is {:?}", ts);
        }
        (MV::Obj(m), Value::Obj(o)) => {
            let names: Vec<&str> = m.pairs.iter().map(|p| p.0.as_str()).collect();
            let want: Vec<MV> = m.pairs.iter().map(|p| p.1.clone()).collect();
            ensure!(o.len() == want.len(), "len is {}, expected {}", o.len(), want.len());
            ensure!(o.is_empty() == want.is_empty(), "is_empty is {}", o.is_empty());
            let got: Vec<&str> = o.iter().map(|p| p.0.as_str()).collect();
            ensure!(got == names, "iter visits {:?}, expected {:?}", got, names);
            let got: Vec<&str> = o.pairs_ref().iter().map(|p| p.0.as_str()).collect();
            ensure!(got == names, "pairs_ref has {:?}, expected {:?}", got, names);
            same_list("iter", &want, o.iter().map(|p| &p.1))?;
            same_list("pairs_ref", &want, o.pairs_ref().iter().map(|p| &p.1))?;
            let mut each = vec![];
            o.with_each(|n, v| each.push((n.clone(), v.clone())));
            ensure!(each.iter().map(|p| p.0.as_str()).collect::<Vec<_>>() == names, "with_each visits {:?}", each);
            same_list("with_each", &want, each.iter().map(|p| &p.1))?;
            for (i, n) in names.iter().enumerate() {
                ensure!(o.contains(n), "contains({}) is false", n);
                let v = o.get(n).ok_or_else(|| format!("get({}) is None", n))?;
                cmp_val(&want[i], &v).map_err(|e| format!("get({}): {}", n, e))?;
                let (v, src) = o.get_with_source(n).ok_or_else(|| format!("get_with_source({}) is None", n))?;
                cmp_val(&want[i], &v).map_err(|e| format!("get_with_source({}): {}", n, e))?;
                ensure!(src.ptr_eq(o), "the source of {} is another object", n);
            }
            // Names that are not (or not here) among the fields.
            let mut asked: Vec<String> = ["", "^", ".", "a", "x", "null", "Obj"].iter().map(|n| n.to_string()).collect();
            let mut up = m.parent.clone();
            for _ in 0..3 {
                if let Some(p) = up {
                    asked.extend(p.pairs.iter().take(3).map(|x| x.0.clone()));
                    up = p.parent.clone();
                } else {
                    break;
                }
            }
            for n in names.iter().take(3).chain(names.iter().rev().take(2)) {
                asked.extend(beside(n));
            }
            for n in &asked {
                ensure!(o.contains(n) == names.contains(&n.as_str()), "contains({:?}) is {}", n, o.contains(n));
                match (m.lookup(n), no_panic(|| o.get(n))?) {
                    (Some((m, _)), Some(v)) => cmp_val(m, &v).map_err(|e| format!("get({:?}): {}", n, e))?,
                    (None, None) => {}
                    (m, v) => return Err(format!("get({:?}) is {:?}, expected {:?}", n, v, m.map(|x| show_mv(x.0)))),
                }
            }
            match (&m.parent, o.get_parent()) {
                (None, None) => ensure!(!o.has_parent(), "has_parent is true"),
                (Some(p), Some(q)) => {
                    ensure!(o.has_parent(), "has_parent is false");
                    cmp_obj(p, &q)?;
                }
                _ => return Err("the parent is not the one given".into()),
            }
        }
        _ => return cmp_val(m, v),
    }
    Ok(())
}

fn c23_views(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let list = list_of(s);
    let m = match s.below(3) {
        0 => MV::tup(list),
        1 => {
            let t = gen_type(s, 2);
            let mut g = VG::new(s);
            let n = s.size(24);
            MV::arr((0..n).map(|_| g.value(s, 4, Some(&t))).collect()).expect("HARNESS ERROR: one type")
        }
        _ => {
            let mut pairs: Vec<(String, MV)> = vec![];
            for v in list {
                let n = fresh_name(s, &|n| pairs.iter().any(|(m, _)| m == n));
                pairs.push((n, v));
            }
            let parent = if s.chance(1, 3) { Some(VG::new(s).obj(s, 5)) } else { None };
            if parent.is_some() && s.chance(1, 4) {
                pairs.clear();
            }
            MV::obj(pairs, parent)
        }
    };
    ctx.input = show_mv(&m);
    ctx.nontrivial = match &m {
        MV::Arr(a) => a.vals.len() > 1,
        MV::Tup(a) => a.len() > 1,
        MV::Obj(o) => o.pairs.len() > 1,
        _ => false,
    };
    let v = build(&m)?;
    check_views(&m, &v)?;
    // The clone presents the same.
    let c = v.clone();
    drop(v);
    check_views(&m, &c)
}

/// Containers of up to some hundred thousand elements, all of the views by number.
fn c23_large(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.weighted(&[30, 30, 20, 20]) {
        0 => (1usize << s.range(5, 17)) + s.usize(5) - 2,
        1 => s.near(9, 140_000) as usize,
        2 => s.range(20, 2_000),
        _ => s.range(2_000, 100_000),
    };
    let kind = s.usize(3);
    ctx.input = format!("{} of {} elements", ["Arr", "Tup", "Obj"][kind], n);
    publish_input(&ctx.input);
    ctx.nontrivial = true;
    ctx.label(["Arr", "Tup", "Obj"][kind]);
    let val = |i: usize| -> Value { (i as u64).into() };
    let (at, past) = (s.usize(n), n + s.usize(3));
    let vals: Vec<Value> = (0..n).map(val).collect();
    let name = |i: usize| format!("f{}", i);
    let counts = |what: &str, len: usize, empty: bool| -> CaseResult {
        ensure!(len == n, "{} len is {}, expected {}", what, len, n);
        ensure!(!empty, "{} is_empty", what);
        Ok(())
    };
    let list = |what: &str, got: Vec<&Value>| -> CaseResult {
        ensure!(got.len() == n, "{} visits {} elements, expected {}", what, got.len(), n);
        match (0..n).find(|i| *got[*i] != val(*i)) {
            Some(i) => Err(format!("{} visits {} as element {}", what, got[i], i)),
            None => Ok(()),
        }
    };
    let mut each: Vec<Value> = vec![];
    match kind {
        0 => {
            let a = Arr::from_values(vals).map_err(|e| e.to_string())?;
            counts("Arr", a.len(), a.is_empty())?;
            list("iter", a.iter().collect())?;
            list("values_ref", a.values_ref().iter().collect())?;
            a.with_each(|v| each.push(v.clone()));
            list("with_each", each.iter().collect())?;
            let got: Vec<Value> = (0..n).filter_map(|i| a.get(i).ok()).collect();
            list("get", got.iter().collect())?;
            ensure!(a.get(past).is_err(), "there is an element {}", past);
            ensure!(a.inner_type().is(&Type::Int), "the type is {:?}", a.inner_type());
        }
        1 => {
            let a = Tup::from_values(vals);
            counts("Tup", a.len(), a.is_empty())?;
            list("iter", a.iter().collect())?;
            list("values_ref", a.values_ref().iter().collect())?;
            a.with_each(|v| each.push(v.clone()));
            list("with_each", each.iter().collect())?;
            let got: Vec<Value> = (0..n).filter_map(|i| a.get(i).ok()).collect();
            list("get", got.iter().collect())?;
            ensure!(a.get(past).is_err(), "there is an element {}", past);
            ensure!(a.inner_type_vec().len() == n && a.inner_type_vec()[at].is(&Type::Int), "there are {} types", a.inner_type_vec().len());
        }
        _ => {
            let pairs = vals.into_iter().enumerate().map(|(i, v)| Pair(name(i), v)).collect();
            let o = Obj::from_pairs(pairs, None).map_err(|e| e.to_string())?;
            counts("Obj", o.len(), o.is_empty())?;
            list("iter", o.iter().map(|p| &p.1).collect())?;
            list("pairs_ref", o.pairs_ref().iter().map(|p| &p.1).collect())?;
            let mut wrong = None;
            o.with_each(|n, v| {
                if *n != name(each.len()) {
                    wrong = Some(n.clone());
                }
                each.push(v.clone())
            });
            ensure!(wrong.is_none(), "with_each visits {:?}", wrong);
            list("with_each", each.iter().collect())?;
            for i in [0, at, n / 2, n - 1] {
                ensure!(o.contains(&name(i)), "contains({}) is false", name(i));
                ensure!(o.get(&name(i)) == Some(val(i)), "get({}) is {:?}", name(i), o.get(&name(i)));
                ensure!(o.get_with_source(&name(i)).map_or(false, |x| x.0 == val(i) && x.1.ptr_eq(&o)), "get_with_source({})", name(i));
            }
            ensure!(!o.contains(&name(past)) && o.get(&name(past)).is_none(), "there is a field {}", name(past));
        }
    }
    Ok(())
}

fn c23_unchanged(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut pool: Vec<(MV, Value)> = vec![];
    let mut b = Builder::default();
    for _ in 0..s.range(1, 4) {
        let mut g = VG::new(s);
        g.budget = g.budget.min(20);
        let m = g.value(s, 4, None);
        let v = b.val(&m)?;
        pool.push((m, v));
    }
    for _ in 0..s.range(1, 12) {
        if pool.iter().map(|p| p.0.size()).sum::<u64>() > 3000 || pool.iter().any(|p| p.0.nesting() > 30) {
            break;
        }
        s.span(|s| -> CaseResult {
            let i = s.usize(pool.len());
            let j = s.usize(pool.len());
            let (a, x) = pool[i].clone();
            let (c, y) = pool[j].clone();
            let made = match s.below(7) {
                0 => (MV::tup(vec![a.clone(), c.clone()]), Value::Tup(Tup::from_values(vec![x.clone(), y.clone()]))),
                1 => match (MV::arr(vec![a.clone(), c.clone()]), Arr::from_values(vec![x.clone(), y.clone()])) {
                    (Some(m), Ok(v)) => (m, Value::Arr(v)),
                    _ => return Ok(()),
                },
                2 => {
                    let o = Obj::from_pairs(vec![Pair("p".into(), x.clone()), Pair("q".into(), y.clone())], None).map_err(|e| e.to_string())?;
                    (MV::obj(vec![("p".into(), a.clone()), ("q".into(), c.clone())], None), Value::Obj(o))
                }
                3 => match (&a, &x) {
                    (MV::Obj(mp), Value::Obj(op)) => {
                        let o = Obj::from_pairs(vec![Pair("a".into(), y.clone())], Some(op.clone())).map_err(|e| e.to_string())?;
                        (MV::obj(vec![("a".into(), c.clone())], Some(mp.clone())), Value::Obj(o))
                    }
                    _ => return Ok(()),
                },
                4 => match (&a, &x) {
                    // From the elements of another.
                    (MV::Arr(ma), Value::Arr(va)) => (MV::tup(ma.vals.clone()), Value::Tup(Tup::from_values(va.values_ref().clone()))),
                    (MV::Tup(ma), Value::Tup(va)) => {
                        let mut e = ma.to_vec();
                        let mut f = va.values_ref().clone();
                        e.push(c.clone());
                        f.push(y.clone());
                        (MV::tup(e), Value::Tup(Tup::from_values(f)))
                    }
                    (MV::Obj(mo), Value::Obj(vo)) => {
                        let mut p = mo.pairs.clone();
                        let mut q = vo.pairs_ref().clone();
                        if mo.own("zz").is_none() {
                            p.push(("zz".into(), c.clone()));
                            q.push(Pair("zz".into(), y.clone()));
                        }
                        (MV::obj(p, mo.parent.clone()), Value::Obj(Obj::from_pairs(q, vo.get_parent()).map_err(|e| e.to_string())?))
                    }
                    _ => return Ok(()),
                },
                5 => match (&a, &x) {
                    // A part of another.
                    (MV::Arr(ma), Value::Arr(va)) if !ma.vals.is_empty() => (ma.vals[0].clone(), va.get(0).map_err(|e| e.to_string())?),
                    (MV::Tup(ma), Value::Tup(va)) if !ma.is_empty() => (ma[ma.len() - 1].clone(), va.get(ma.len() - 1).map_err(|e| e.to_string())?),
                    (MV::Obj(mo), Value::Obj(vo)) if !mo.pairs.is_empty() => {
                        (mo.pairs[0].1.clone(), vo.get(&mo.pairs[0].0).ok_or("no field")?)
                    }
                    _ => return Ok(()),
                },
                _ => {
                    // Text made of it.
                    let t = format!("a: {} b: a c: {{^: {{d: a}}}}", plain(&a));
                    match Obj::from_str(&t) {
                        Ok(o) => (a.clone(), o.get("b").ok_or("no field b")?),
                        Err(_) => return Ok(()),
                    }
                }
            };
            pool.push(made);
            if s.chance(1, 4) && pool.len() > 2 {
                let k = s.usize(pool.len());
                pool.swap_remove(k);
            }
            Ok(())
        })?;
        for (m, v) in &pool {
            check_views(m, v)?;
        }
    }
    ctx.input = show_mv(&MV::tup(pool.iter().map(|p| p.0.clone()).collect()));
    ctx.nontrivial = pool.len() > 2;
    for (m, v) in &pool {
        cmp_val(m, v)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C24

macro_rules! each_int {
    ($m:ident) => {
        $m!(u8, to_u8);
        $m!(u16, to_u16);
        $m!(u32, to_u32);
        $m!(u64, to_u64);
        $m!(usize, to_usize);
        $m!(i8, to_i8);
        $m!(i16, to_i16);
        $m!(i32, to_i32);
        $m!(i64, to_i64);
    };
}

/// Compares `v`, which is the Int `i`, with a native integer in both directions.
macro_rules! cmp_native {
    ($v:expr, $i:expr, $x:expr, $t:ty) => {{
        let x: $t = $x;
        let want = *$i == BigInt::from(x);
        let all = [*$v == x, x == *$v, !(*$v != x), !(x != *$v)];
        if !all.iter().all(|r| *r == want) {
            return Err(format!("equality of the value {} and {} ({}) is {:?}, expected {}", $i, x, stringify!($t), all, want));
        }
    }};
}

fn against_all(v: &Value, i: &BigInt, extra: u64) -> CaseResult {
    // The image of `i` in each width, its neighbours, the limits and something else.
    let low = {
        let m = BigInt::one() << 64;
        let r = ((i % &m) + &m) % &m;
        r.to_u64().unwrap_or(0)
    };
    macro_rules! go {
        ($t:ty, $f:ident) => {
            let img = low as $t;
            for x in [img, img.wrapping_add(1), img.wrapping_sub(1), <$t>::min_value(), <$t>::max_value(), 0, 1, extra as $t] {
                cmp_native!(v, i, x, $t);
            }
        };
    }
    each_int!(go);
    Ok(())
}

fn c24_native(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.nontrivial = true;
    let raw = match s.below(4) {
        0 => s.bits(),
        1 => {
            let sh = s.below(64);
            (1u64 << sh).wrapping_add(s.below(5)).wrapping_sub(2)
        }
        2 => s.below(600).wrapping_sub(300),
        _ => *s.pick(&[0, 1, u64::max_value(), i64::max_value() as u64, i64::min_value() as u64, 255, 128, 127, 65535, 32768]),
    };
    let extra = s.bits();
    macro_rules! go {
        ($t:ty, $f:ident) => {{
            let x = raw as $t;
            let v = Value::from(x);
            let want = BigInt::from(x);
            match &v {
                Value::Int(i) => ensure!(*i == want, "Value::from({}: {}) holds {}", x, stringify!($t), i),
                v => return Err(format!("Value::from({}: {}) is {}", x, stringify!($t), show_val(v))),
            }
            let w: Value = x.into();
            ensure!(v == w && w == v, "converting {} twice gives unequal values", x);
            ensure!(v == want && want == v, "Value::from({}: {}) does not equal the big integer", x, stringify!($t));
            cmp_native!(&v, &want, x, $t);
            ensure!(v.get_int().ok().as_ref() == Some(&want), "get_int of {} is something else", x);
            against_all(&v, &want, extra)?;
        }};
    }
    ctx.input = format!("{} {}", raw, raw as i64);
    each_int!(go);
    Ok(())
}

fn c24_big(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.nontrivial = true;
    let i = match s.below(3) {
        0 => {
            let e = edge_ints();
            s.pick(&e).clone()
        }
        1 => {
            // A small number plus a multiple of a power of two.
            let w = *s.pick(&[8usize, 16, 31, 32, 63, 64, 65, 127, 128]);
            let k = BigInt::from(s.below(5) as i64 - 2);
            (k << w) + BigInt::from(s.below(7) as i64 - 3)
        }
        _ => gen_int(s),
    };
    ctx.input = i.to_string();
    let v = Value::from(i.clone());
    match &v {
        Value::Int(j) => ensure!(*j == i, "Value::from({}) holds {}", i, j),
        v => return Err(format!("Value::from({}) is {}", i, show_val(v))),
    }
    ensure!(v == i && i == v, "not equal to the big integer it was made of");
    let j = &i + BigInt::one();
    ensure!(v != j && j != v, "equal to the next integer");
    let m = s.bits();
    against_all(&v, &i, m)?;
    // A fraction is never equal to a native integer.
    let f = BigRational::new(i.clone(), BigInt::one());
    let fv = Value::from(f.clone());
    ensure!(fv == f && f == fv, "not equal to the big rational it was made of");
    ensure!(fv != i && i != fv && v != f && f != v && fv != v, "an Int equals a Frac");
    macro_rules! go {
        ($t:ty, $f:ident) => {
            if let Some(x) = i.$f() {
                ensure!(fv != x && x != fv, "a Frac equals a native {}", stringify!($t));
                ensure!(v == x && x == v, "the value {} does not equal the native {}", i, stringify!($t));
            }
        };
    }
    each_int!(go);
    Ok(())
}

fn c24_kinds(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.nontrivial = true;
    let m = VG::new(s).value(s, 3, None);
    ctx.input = show_mv(&m);
    let v = build(&m)?;
    // Against natives of every kind.
    let strs = [gen_string(s), String::new(), "1".into(), "true".into(), "null".into(), match &m {
        MV::Str(x) => x.to_string(),
        _ => "x".into(),
    }];
    for x in strs.iter() {
        let want = match &m {
            MV::Str(y) => **y == **x,
            _ => false,
        };
        let r: &str = x;
        let all = [v == *x, *x == v, v == r, r == v];
        ensure!(all.iter().all(|e| *e == want), "equality with the string {:?} is {:?}, expected {}", x, all, want);
        let c: Value = x.clone().into();
        let d: Value = r.into();
        for c in [c, d].iter() {
            match c {
                Value::Str(y) => ensure!(*y == *x, "the string {:?} became {:?}", x, y),
                c => return Err(format!("the string {:?} became {}", x, show_val(c))),
            }
        }
    }
    for b in [true, false] {
        let want = match &m {
            MV::Bool(y) => *y == b,
            _ => false,
        };
        let all = [v == b, b == v];
        ensure!(all.iter().all(|e| *e == want), "equality with {} is {:?}, expected {}", b, all, want);
        match Value::from(b) {
            Value::Bool(c) => ensure!(b == c, "{} became {}", b, c),
            c => return Err(format!("{} became {}", b, show_val(&c))),
        }
    }
    if !matches!(m, MV::Int(_)) {
        macro_rules! go {
            ($t:ty, $f:ident) => {
                for x in [0 as $t, 1 as $t, <$t>::max_value()] {
                    ensure!(v != x && x != v, "{} equals the native integer {}", show_mv(&m), x);
                }
            };
        }
        each_int!(go);
    }
    let f = match s.bool() {
        true => gen_frac(s),
        false => match &m {
            MV::Frac(f) => f.clone(),
            _ => gen_frac(s),
        },
    };
    let want = match &m {
        MV::Frac(g) => f.numer() == g.numer() && f.denom() == g.denom(),
        _ => false,
    };
    let all = [v == f, f == v];
    ensure!(all.iter().all(|e| *e == want), "equality with {} is {:?}, expected {}", f, all, want);
    match Value::from(f.clone()) {
        Value::Frac(g) => ensure!(f.numer() == g.numer() && f.denom() == g.denom(), "{} became {}", f, g),
        c => return Err(format!("{} became {}", f, show_val(&c))),
    }
    // Containers.
    match &v {
        Value::Arr(a) => {
            let w: Value = a.clone().into();
            cmp_val(&m, &w)?;
            ensure!(w == *a && *a == w && w == v, "an array does not equal its value");
            ensure!(w.get_arr().map_or(false, |b| b.ptr_eq(a)), "the value holds another array");
        }
        Value::Tup(a) => {
            let w: Value = a.clone().into();
            cmp_val(&m, &w)?;
            ensure!(w == *a && *a == w && w == v, "a tuple does not equal its value");
            ensure!(w.get_tup().map_or(false, |b| b.ptr_eq(a)), "the value holds another tuple");
        }
        Value::Obj(a) => {
            let w: Value = a.clone().into();
            cmp_val(&m, &w)?;
            ensure!(w == *a && *a == w && w == v, "an object does not equal its value");
            ensure!(w.get_obj().map_or(false, |b| b.ptr_eq(a)), "the value holds another object");
        }
        v => {
            let (a, t, o) = (Arr::empty(), Tup::empty(), Obj::empty());
            ensure!(*v != a && a != *v && *v != t && t != *v && *v != o && o != *v, "{} equals an empty container", show_val(v));
        }
    }
    // An empty array is not an empty tuple or object.
    let (a, t, o) = (Value::from(Arr::empty()), Value::from(Tup::empty()), Value::from(Obj::empty()));
    ensure!(a != t && t != a && a != o && o != a && t != o && o != t, "empty containers of different kinds are equal");
    ensure!(a != Tup::empty() && Tup::empty() != a && a != Obj::empty() && t != Obj::empty() && t != Arr::empty() && o != Arr::empty() && o != Tup::empty(), "empty containers of different kinds are equal");
    Ok(())
}

// --------------------------------------------------------------------------------------------- C25

/// Whether the displayed text can stand in every place and reads back as the value.
fn shown(m: &MV, v: &Value) -> CaseResult {
    let text = v.to_string();
    ensure!(v.to_string() == text && format!("{}", v.clone()) == text, "displaying is not deterministic");
    let inner = match v {
        Value::Arr(a) => Some(a.to_string()),
        Value::Tup(a) => Some(a.to_string()),
        Value::Obj(a) => Some(a.to_string()),
        _ => None,
    };
    if let Some(i) = inner {
        ensure!(i == text, "the container displays as {:?}, its value as {:?}", i, text);
    }
    let places: [(&str, String, fn(&Obj) -> Option<Value>); 6] = [
        ("field", format!("r: {}", text), |o| o.get("r")),
        ("field before another", format!("r: {}\nz: 1", text), |o| o.get("r")),
        ("array element", format!("r: [{}]", text), |o| o.get_arr("r").ok().and_then(|a| a.get(0).ok())),
        ("array element", format!("r: [{} {}]", text, text), |o| o.get_arr("r").ok().and_then(|a| a.get(1).ok())),
        ("tuple element", format!("r: (1 {} \"x\")", text), |o| o.get_tup("r").ok().and_then(|a| a.get(1).ok())),
        ("inner field", format!("r: {{ x: {} y: 2 }}", text), |o| o.get_obj("r").ok().and_then(|a| a.get("x"))),
    ];
    for (p, t, f) in places.iter() {
        let o = Obj::from_str(t).map_err(|e| format!("as a {}, the displayed text is rejected: {}: {:?}", p, e, text))?;
        let w = f(&o).ok_or_else(|| format!("as a {}, the displayed text {:?} is not one value", p, text))?;
        cmp_val(m, &w).map_err(|e| format!("as a {}, the displayed text {:?} is read as something else: {}", p, text, e))?;
        ensure!(w == *v, "as a {}, {:?} is read as an unequal value", p, text);
        ensure!(w.to_string() == text, "the value read back displays as {:?}, before {:?}", w.to_string(), text);
        let whole = if t.ends_with("z: 1") { o.len() == 2 && o.get("z") == Some(Value::from(1)) } else { o.len() == 1 };
        ensure!(whole, "as a {}, the displayed text {:?} spills into its surroundings", p, text);
    }
    Ok(())
}

fn c25_values(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let m = VG::new(s).value(s, 2, None);
    ctx.input = show_mv(&m);
    ctx.nontrivial = m.nesting() > 0 || interesting(&m);
    ctx.label_if(m.nesting() >= 3, "three levels");
    let v = build(&m)?;
    shown(&m, &v)
}

fn c25_deep(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.below(4) {
        0 => 62,
        1 => 61,
        2 => s.range(40, 62),
        _ => s.range(1, 62),
    };
    let m = deep_value(s, n);
    if m.size() > 5_000 {
        ctx.label("skipped: too large");
        return Ok(());
    }
    ctx.input = show_mv(&m);
    ctx.nontrivial = true;
    ctx.label_if(n == 62, "62 levels");
    let v = build(&m)?;
    shown(&m, &v)
}

fn c25_file(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut g = VG::new(s);
    g.budget = g.budget.min(60);
    let m = g.value(s, 3, None);
    ctx.input = show_mv(&m);
    ctx.nontrivial = m.nesting() > 0 || interesting(&m);
    let v = build(&m)?;
    let text = v.to_string();
    let d = super::files::fresh_dir();
    let n = s.range(1, 3);
    let body = vec![text.clone(); n].join("\n");
    std::fs::write(d.path().join("v.over"), &body).map_err(harness)?;
    std::fs::write(d.path().join("o.over"), format!("x: {}", text)).map_err(harness)?;
    let main = d.path().join("m.over");
    std::fs::write(&main, "a: <Arr \"v.over\"> t: <Tup \"v.over\"> s: <Str \"v.over\"> o: <\"o.over\">").map_err(harness)?;
    let o = Obj::from_file(main.to_str().unwrap()).map_err(|e| format!("the displayed text {:?} is rejected in an included file: {}", text, e))?;
    let all = vec![m.clone(); n];
    cmp_val(&MV::arr(all.clone()).expect("HARNESS ERROR: one type"), &o.get("a").ok_or("no field a")?).map_err(|e| format!("Arr file: {}: {:?}", e, text))?;
    cmp_val(&MV::tup(all), &o.get("t").ok_or("no field t")?).map_err(|e| format!("Tup file: {}: {:?}", e, text))?;
    cmp_val(&MV::str(&body), &o.get("s").ok_or("no field s")?).map_err(|e| format!("Str file: {}: {:?}", e, text))?;
    cmp_val(&MV::obj(vec![("x".into(), m)], None), &o.get("o").ok_or("no field o")?).map_err(|e| format!("Obj file: {}: {:?}", e, text))
}
