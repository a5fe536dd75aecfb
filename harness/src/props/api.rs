//! Properties of the ways to construct values, and of what errors say.

use super::values::{near, type_name};
use super::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use over::arr::Arr;
use over::obj::Pair;
use over::tup::Tup;
use over::value::Value;
use over::{arr, frac, int, obj, try_arr, try_obj, tup, ReferenceType};
use std::cell::RefCell;
use std::convert::TryFrom;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            level: "exploration",
            rule: "0 to 8 generated fields or elements (legal, illegal, '^' with and without an object; of one type, of compatible types or with a misfit), given to the macros, with String and &str names and with and without a trailing comma, and to the functions; native numbers of every width given to int! and frac!. Non-trivial: at least two fields or elements, or a number outside 0..100",
            assumptions: vec![PURE],
            subs: vec![
                sub("objects", 200_000, 4_000_000, c26_objects),
                sub("lists", 200_000, 4_000_000, c26_lists),
                sub("wide", 8_000, 160_000, c26_wide),
                sub("numbers", 400_000, 8_000_000, c26_numbers),
                sub("programs", 24, 480, c26_programs),
            ],
        },
        Prop {
            id: "C27",
            level: "exploration",
            rule: "types and the same type changed in one place; failing API calls with random indices, names and types; documents with one fault made of random names, characters, indices, paths and values of random types, behind a generated document. Non-trivial: the message has to name at least one generated thing",
            assumptions: vec![PURE],
            subs: vec![
                sub("types", 1_500_000, 30_000_000, c27_types),
                sub("api", 600_000, 12_000_000, c27_api),
                sub("text", 400_000, 8_000_000, c27_text),
                sub("files", 60_000, 1_200_000, c27_files),
            ],
        },
    ]
}

// --------------------------------------------------------------------------------------------- C26

/// What the expressions given to a macro evaluate to, and when they were evaluated.
struct Exprs {
    names: Vec<String>,
    vals: Vec<Value>,
    log: RefCell<Vec<usize>>,
    asked: RefCell<Vec<usize>>,
}
impl Exprs {
    fn k(&self, i: usize) -> String {
        self.asked.borrow_mut().push(i);
        self.names[i].clone()
    }
    fn r(&self, i: usize) -> &str {
        self.asked.borrow_mut().push(i);
        &self.names[i]
    }
    fn v(&self, i: usize) -> Value {
        self.log.borrow_mut().push(i);
        self.vals[i].clone()
    }
}

macro_rules! on_count {
    ($n:expr, $d:expr, $($k:literal => $e:expr),+ $(,)?) => {
        match $n {
            $($k => $e,)+
            _ => $d,
        }
    };
}

/// try_obj! with `n` fields (at least one).
fn objects_try(e: &Exprs, n: usize, how: u64) -> Result<Obj, OverError> {
    match how {
        0 => on_count!(n, unreachable!(),
            1 => { let r = try_obj! {e.k(0) => e.v(0)}.map(|o| o); r },
            2 => { let r = try_obj! {e.k(0) => e.v(0), e.k(1) => e.v(1)}.map(|o| o); r },
            3 => { let r = try_obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2)}.map(|o| o); r },
            4 => { let r = try_obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3)}.map(|o| o); r },
            5 => { let r = try_obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4)}.map(|o| o); r },
            6 => { let r = try_obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4), e.k(5) => e.v(5)}.map(|o| o); r },
            7 => { let r = try_obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4), e.k(5) => e.v(5), e.k(6) => e.v(6)}.map(|o| o); r },
            8 => { let r = try_obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4), e.k(5) => e.v(5), e.k(6) => e.v(6), e.k(7) => e.v(7)}.map(|o| o); r },
        ),
        _ => on_count!(n, unreachable!(),
            1 => { let r = try_obj! {e.r(0) => e.v(0),}.map(|o| o); r },
            2 => { let r = try_obj! {e.r(0) => e.v(0), e.k(1) => e.v(1),}.map(|o| o); r },
            3 => { let r = try_obj! {e.r(0) => e.v(0), e.k(1) => e.v(1), e.r(2) => e.v(2),}.map(|o| o); r },
            4 => { let r = try_obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3),}.map(|o| o); r },
            5 => { let r = try_obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4),}.map(|o| o); r },
            6 => { let r = try_obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4), e.r(5) => e.v(5),}.map(|o| o); r },
            7 => { let r = try_obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4), e.r(5) => e.v(5), e.r(6) => e.v(6),}.map(|o| o); r },
            8 => { let r = try_obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4), e.r(5) => e.v(5), e.r(6) => e.v(6), e.r(7) => e.v(7),}.map(|o| o); r },
        ),
    }
}

/// obj! with `n` fields.
fn objects(e: &Exprs, n: usize, how: u64) -> Obj {
    match how {
        0 => on_count!(n, unreachable!(),
            0 => { let r = obj! {}; r },
            1 => { let r = obj! {e.k(0) => e.v(0)}; r },
            2 => { let r = obj! {e.k(0) => e.v(0), e.k(1) => e.v(1)}; r },
            3 => { let r = obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2)}; r },
            4 => { let r = obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3)}; r },
            5 => { let r = obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4)}; r },
            6 => { let r = obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4), e.k(5) => e.v(5)}; r },
            7 => { let r = obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4), e.k(5) => e.v(5), e.k(6) => e.v(6)}; r },
            8 => { let r = obj! {e.k(0) => e.v(0), e.k(1) => e.v(1), e.k(2) => e.v(2), e.k(3) => e.v(3), e.k(4) => e.v(4), e.k(5) => e.v(5), e.k(6) => e.v(6), e.k(7) => e.v(7)}; r },
        ),
        _ => on_count!(n, unreachable!(),
            0 => { let r = obj! {}; r },
            1 => { let r = obj! {e.r(0) => e.v(0),}; r },
            2 => { let r = obj! {e.r(0) => e.v(0), e.r(1) => e.v(1),}; r },
            3 => { let r = obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.k(2) => e.v(2),}; r },
            4 => { let r = obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3),}; r },
            5 => { let r = obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4),}; r },
            6 => { let r = obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4), e.r(5) => e.v(5),}; r },
            7 => { let r = obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4), e.r(5) => e.v(5), e.r(6) => e.v(6),}; r },
            8 => { let r = obj! {e.r(0) => e.v(0), e.r(1) => e.v(1), e.r(2) => e.v(2), e.r(3) => e.v(3), e.r(4) => e.v(4), e.r(5) => e.v(5), e.r(6) => e.v(6), e.r(7) => e.v(7),}; r },
        ),
    }
}

fn lists_try(e: &Exprs, n: usize, how: u64) -> Result<Arr, OverError> {
    match how {
        0 => on_count!(n, unreachable!(),
            1 => try_arr![e.v(0)],
            2 => try_arr![e.v(0), e.v(1)],
            3 => try_arr![e.v(0), e.v(1), e.v(2)],
            4 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3)],
            5 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4)],
            6 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5)],
            7 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6)],
            8 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6), e.v(7)],
        ),
        _ => on_count!(n, unreachable!(),
            1 => try_arr![e.v(0),],
            2 => try_arr![e.v(0), e.v(1),],
            3 => try_arr![e.v(0), e.v(1), e.v(2),],
            4 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3),],
            5 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4),],
            6 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5),],
            7 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6),],
            8 => try_arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6), e.v(7),],
        ),
    }
}

fn lists(e: &Exprs, n: usize, how: u64) -> Arr {
    match how {
        0 => on_count!(n, unreachable!(),
            0 => arr![],
            1 => arr![e.v(0)],
            2 => arr![e.v(0), e.v(1)],
            3 => arr![e.v(0), e.v(1), e.v(2)],
            4 => arr![e.v(0), e.v(1), e.v(2), e.v(3)],
            5 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4)],
            6 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5)],
            7 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6)],
            8 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6), e.v(7)],
        ),
        _ => on_count!(n, unreachable!(),
            0 => arr![],
            1 => arr![e.v(0),],
            2 => arr![e.v(0), e.v(1),],
            3 => arr![e.v(0), e.v(1), e.v(2),],
            4 => arr![e.v(0), e.v(1), e.v(2), e.v(3),],
            5 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4),],
            6 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5),],
            7 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6),],
            8 => arr![e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6), e.v(7),],
        ),
    }
}

fn tuples(e: &Exprs, n: usize, how: u64) -> Tup {
    match how {
        0 => on_count!(n, unreachable!(),
            0 => tup!(),
            1 => tup!(e.v(0)),
            2 => tup!(e.v(0), e.v(1)),
            3 => tup!(e.v(0), e.v(1), e.v(2)),
            4 => tup!(e.v(0), e.v(1), e.v(2), e.v(3)),
            5 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4)),
            6 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5)),
            7 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6)),
            8 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6), e.v(7)),
        ),
        _ => on_count!(n, unreachable!(),
            0 => over::tup![],
            1 => tup!(e.v(0),),
            2 => tup!(e.v(0), e.v(1),),
            3 => tup!(e.v(0), e.v(1), e.v(2),),
            4 => tup!(e.v(0), e.v(1), e.v(2), e.v(3),),
            5 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4),),
            6 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5),),
            7 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6),),
            8 => tup!(e.v(0), e.v(1), e.v(2), e.v(3), e.v(4), e.v(5), e.v(6), e.v(7),),
        ),
    }
}

/// Every expression is evaluated once, in order.
fn once(what: &str, e: &Exprs, n: usize) -> CaseResult {
    let log = std::mem::take(&mut *e.log.borrow_mut());
    ensure!(log == (0..n).collect::<Vec<_>>(), "{} evaluated its value expressions in the order {:?}", what, log);
    let log = std::mem::take(&mut *e.asked.borrow_mut());
    let names = if e.names.is_empty() { 0 } else { n };
    ensure!(log == (0..names).collect::<Vec<_>>(), "{} evaluated its name expressions in the order {:?}", what, log);
    Ok(())
}

fn same_place(what: &str, a: &Value, b: &Value) -> CaseResult {
    let same = match (a, b) {
        (Value::Arr(a), Value::Arr(b)) => a.ptr_eq(b),
        (Value::Tup(a), Value::Tup(b)) => a.ptr_eq(b),
        (Value::Obj(a), Value::Obj(b)) => a.ptr_eq(b),
        (Value::Arr(_), _) | (Value::Tup(_), _) | (Value::Obj(_), _) => false,
        _ => true,
    };
    ensure!(same, "{} holds another instance than the one given: {}", what, show_val(a));
    Ok(())
}

/// A name for a field: legal, or (rarely) not.
fn maybe_name(s: &mut Src, bad: bool) -> String {
    if bad && s.chance(1, 6) {
        s.pick(&["", "1a", "a b", "a.b", "@a", "a^", "^a", "^^", " ^", "^ ", "é-", "-", "a:", "\u{663}", "a\n", "\"a\""]).to_string()
    } else {
        gen_name(s)
    }
}

fn c26_objects(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.usize(9);
    let bad = s.chance(1, 3);
    let mut g = VG::new(s);
    let parent_at = if n > 0 && s.bool() { Some(s.usize(n)) } else { None };
    let mut names: Vec<String> = vec![];
    let mut models: Vec<MV> = vec![];
    for i in 0..n {
        if parent_at == Some(i) {
            names.push("^".into());
            models.push(if s.chance(1, 8) { g.value(s, 3, None) } else { MV::Obj(g.obj(s, 3)) });
        } else {
            let t = maybe_name(s, bad);
            // Names are unique, apart from illegal ones.
            let t = if valid_name(&t) { fresh_name(s, &|x: &str| x == t && names.iter().any(|y| y == x) || names.iter().any(|y| y == x)) } else { t };
            names.push(t);
            models.push(if i > 0 && s.chance(1, 6) { models[s.usize(i)].clone() } else { g.value(s, 3, None) });
        }
    }
    let mut b = Builder::default();
    let vals = models.iter().map(|m| b.val(m)).collect::<Result<Vec<_>, _>>()?;
    ctx.input = names.iter().zip(&models).map(|(n, m)| format!("{:?} => {}", n, show_mv(m))).collect::<Vec<_>>().join(", ");
    ctx.nontrivial = n > 1;
    let e = Exprs { names, vals, log: RefCell::new(vec![]), asked: RefCell::new(vec![]) };

    // What it has to be.
    let own: Vec<usize> = (0..n).filter(|i| parent_at != Some(*i)).collect();
    let wrong_parent = parent_at.and_then(|i| if let MV::Obj(_) = models[i] { None } else { Some(models[i].ty()) });
    let bad_name = own.iter().map(|i| e.names[*i].clone()).find(|t| !valid_name(t));
    let parent = match parent_at {
        Some(i) => match (&models[i], &e.vals[i]) {
            (MV::Obj(m), Value::Obj(v)) => Some((m.clone(), v.clone())),
            _ => None,
        },
        None => None,
    };
    ctx.label_if(parent.is_some(), "with a parent");
    ctx.label_if(wrong_parent.is_some(), "parent is not an object");
    ctx.label_if(bad_name.is_some(), "illegal name");
    let pairs = || own.iter().map(|i| Pair(e.names[*i].clone(), e.vals[*i].clone())).collect::<Vec<_>>();
    let want = MObj {
        pairs: own.iter().map(|i| (e.names[*i].clone(), models[*i].clone())).collect(),
        parent: parent.as_ref().map(|p| p.0.clone()),
    };
    let ok = wrong_parent.is_none() && bad_name.is_none();
    let explicit = if wrong_parent.is_some() { None } else { Some(no_panic(|| Obj::from_pairs(pairs(), parent.as_ref().map(|p| p.1.clone())))?) };

    let how = s.below(2);
    let mut all: Vec<(&str, Obj)> = vec![];
    if n > 0 {
        let r = no_panic(|| objects_try(&e, n, how))?;
        once("try_obj!", &e, n)?;
        match r {
            Ok(o) => {
                ensure!(ok, "try_obj! accepted {}", ctx.input);
                all.push(("try_obj!", o));
            }
            Err(err) => {
                ensure!(!ok, "try_obj! gave {:?}", err);
                match (&err, &bad_name, &wrong_parent) {
                    (OverError::InvalidFieldName(x), Some(_), _) => {
                        ensure!(!valid_name(x) && own.iter().any(|i| e.names[*i] == *x), "try_obj! names the field {:?}", x)
                    }
                    (OverError::TypeMismatch(a, t), _, Some(w)) => {
                        ensure!(
                            MT::from_over(a) == MT::Obj && MT::from_over(t) == *w,
                            "try_obj! gave {:?} for a parent of type {:?}",
                            err,
                            w
                        )
                    }
                    _ => return Err(format!("try_obj! gave {:?}", err)),
                }
                if let Some(x) = &explicit {
                    ensure!(matches!(x, Err(y) if *y == err), "try_obj! gave {:?}, Obj::from_pairs {:?}", err, x);
                }
            }
        }
    }
    // obj! panics where the other is an error. (A panic costs much more than an object.)
    if ok || s.chance(1, 10) {
        let r = no_panic(|| objects(&e, n, how));
        once("obj!", &e, n)?;
        match r {
            Ok(o) => {
                ensure!(ok, "obj! accepted {}", ctx.input);
                all.push(("obj!", o));
            }
            Err(m) => ensure!(!ok, "obj! panicked: {}", m),
        }
    }
    if ok {
        match explicit {
            Some(Ok(o)) => all.push(("Obj::from_pairs", o)),
            r => return Err(format!("Obj::from_pairs gave {:?}", r)),
        }
        all.push(("Obj::from_pairs_unchecked", Obj::from_pairs_unchecked(pairs(), parent.as_ref().map(|p| p.1.clone()))));
        if n == 0 {
            for _ in 0..2 {
                all.push(("Obj::empty", Obj::empty()));
                all.push(("Obj::default", Obj::default()));
            }
            all.push(("Obj::from_str(\"\")", Obj::from_str("").map_err(|e| e.to_string())?));
        }
    }
    for (what, o) in &all {
        cmp_obj(&want, o).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(o.len() == own.len() && o.is_empty() == own.is_empty(), "{}: len is {}", what, o.len());
        for (p, i) in o.pairs_ref().iter().zip(&own) {
            same_place(what, &e.vals[*i], &p.1)?;
        }
        match (&parent, o.get_parent()) {
            (None, None) => {}
            (Some(p), Some(q)) => same_place(what, &Value::Obj(p.1.clone()), &Value::Obj(q))?,
            (_, q) => return Err(format!("{}: the parent is {:?}", what, q)),
        }
        ensure!(*o == all[0].1 && all[0].1 == *o, "{} and {} are not equal", what, all[0].0);
        ensure!(o.to_string() == all[0].1.to_string(), "{} and {} are displayed differently", what, all[0].0);
        ensure!(o.write_to_string() == all[0].1.write_to_string(), "{} and {} are written differently", what, all[0].0);
    }
    for (i, (what, o)) in all.iter().enumerate() {
        for (_, p) in &all[..i] {
            ensure!(!o.ptr_eq(p) && o.id() != p.id(), "{} made an instance which exists already", what);
        }
    }
    Ok(())
}

/// More elements or fields than anybody counts: functions with any number, macros with forty.
fn c26_wide(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    macro_rules! forty {
        ($m:ident, $e:ident) => {
            $m!($e.v(0), $e.v(1), $e.v(2), $e.v(3), $e.v(4), $e.v(5), $e.v(6), $e.v(7), $e.v(8), $e.v(9), $e.v(10), $e.v(11), $e.v(12), $e.v(13),
                $e.v(14), $e.v(15), $e.v(16), $e.v(17), $e.v(18), $e.v(19), $e.v(20), $e.v(21), $e.v(22), $e.v(23), $e.v(24), $e.v(25), $e.v(26),
                $e.v(27), $e.v(28), $e.v(29), $e.v(30), $e.v(31), $e.v(32), $e.v(33), $e.v(34), $e.v(35), $e.v(36), $e.v(37), $e.v(38), $e.v(39))
        };
    }
    let by_macro = s.chance(1, 4);
    let n = match s.below(3) {
        _ if by_macro => 40,
        0 => s.range(9, 60),
        1 => s.near(9, 2_000) as usize,
        _ => s.range(60, 1_000),
    };
    let kind = s.usize(3);
    let mut models: Vec<MV> = (0..n)
        .map(|i| match kind {
            0 => MV::int(i as i64),
            1 => MV::arr(vec![]).expect("HARNESS ERROR: empty"),
            _ => MV::tup(vec![MV::int(i as i64), MV::arr(vec![]).expect("HARNESS ERROR: empty")]),
        })
        .collect();
    // One of a narrower type, and one that does not fit.
    let at = s.usize(n);
    if s.bool() {
        models[at] = match kind {
            0 => MV::int(-1),
            1 => MV::arr(vec![MV::str("a")]).expect("HARNESS ERROR: one"),
            _ => MV::tup(vec![MV::int(1), MV::arr(vec![MV::int(1)]).expect("HARNESS ERROR: one")]),
        };
    }
    let misfit = s.chance(1, 3);
    if misfit {
        let at = if s.bool() { n - 1 - s.usize(n.min(3)) } else { s.usize(n) };
        models[at] = match kind {
            0 => MV::Null,
            1 => MV::int(1),
            _ => MV::tup(vec![MV::int(1)]),
        };
    }
    ctx.input = format!("{} of kind {}, narrower at {}, misfit {}, macro {}: {}", n, kind, at, misfit, by_macro, show_mv(&MV::tup(models.clone())));
    publish_input(&ctx.input);
    ctx.nontrivial = true;
    ctx.label(if by_macro { "macro" } else { "functions" });
    ctx.label_if(n > 100, "over 100");
    let mut b = Builder::default();
    let vals = models.iter().map(|m| b.val(m)).collect::<Result<Vec<_>, _>>()?;
    let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
    let e = Exprs { names: vec![], vals, log: RefCell::new(vec![]), asked: RefCell::new(vec![]) };

    let want = MV::tup(models.clone());
    let mut tups = vec![Tup::from_values(e.vals.clone()), Tup::from(e.vals.clone())];
    if by_macro {
        tups.push(no_panic(|| forty!(tup, e))?);
        once("tup!", &e, n)?;
    }
    for t in &tups {
        ensure!(t.len() == n, "the tuple has {} elements", t.len());
        cmp_val(&want, &Value::Tup(t.clone()))?;
    }

    let mut pairs: Vec<Pair> = names.iter().zip(&e.vals).map(|(n, v)| Pair(n.clone(), v.clone())).collect();
    let wobj = MObj { pairs: names.iter().cloned().zip(models.iter().cloned()).collect(), parent: None };
    let o = Obj::from_pairs(pairs.clone(), None).map_err(|e| format!("from_pairs: {:?}", e))?;
    cmp_obj(&wobj, &o)?;
    let i = s.usize(n);
    pairs[i].0 = s.pick(&["^", "1a", "a b", ""]).to_string();
    ensure!(Obj::from_pairs(pairs, None).is_err(), "from_pairs takes an invalid name at {}", i);

    let want = MV::arr(models.clone());
    let mut arrs = vec![("Arr::from_values", no_panic(|| Arr::from_values(e.vals.clone()))?), ("Arr::try_from", no_panic(|| Arr::try_from(e.vals.clone()))?)];
    if by_macro {
        arrs.push(("try_arr!", no_panic(|| forty!(try_arr, e))?));
        once("try_arr!", &e, n)?;
    }
    for (what, r) in arrs {
        match (&want, r) {
            (Some(w), Ok(a)) => {
                cmp_val(w, &Value::Arr(a)).map_err(|e| format!("{}: {}", what, e))?;
            }
            (None, Err(_)) => {}
            (None, Ok(_)) => return Err(format!("{} accepts values of several types", what)),
            (Some(_), Err(e)) => return Err(format!("{}: {:?}", what, e)),
        }
    }
    Ok(())
}

fn c26_lists(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.usize(9);
    let mut g = VG::new(s);
    let t = if s.chance(3, 4) { Some(gen_type(s, 2)) } else { None };
    let mut models: Vec<MV> = vec![];
    for i in 0..n {
        let m = if i > 0 && s.chance(1, 6) { models[s.usize(i)].clone() } else { g.value(s, 3, t.as_ref()) };
        models.push(m);
    }
    if n > 0 && s.chance(1, 6) {
        let i = s.usize(n);
        models[i] = g.value(s, 3, None);
    }
    let mut b = Builder::default();
    let vals = models.iter().map(|m| b.val(m)).collect::<Result<Vec<_>, _>>()?;
    ctx.input = models.iter().map(show_mv).collect::<Vec<_>>().join(", ");
    ctx.nontrivial = n > 1;
    let e = Exprs { names: vec![], vals, log: RefCell::new(vec![]), asked: RefCell::new(vec![]) };
    let how = s.below(2);

    // Tuples take anything.
    let want = MV::tup(models.clone());
    let mut all: Vec<(&str, Tup)> = vec![("Tup::from_values", Tup::from_values(e.vals.clone()))];
    all.push(("tup!", no_panic(|| tuples(&e, n, how))?));
    once("tup!", &e, n)?;
    all.push(("Tup::from", Tup::from(e.vals.clone())));
    let into: Tup = e.vals.clone().into();
    all.push(("into Tup", into));
    if n == 0 {
        for _ in 0..2 {
            all.push(("Tup::empty", Tup::empty()));
            all.push(("Tup::default", Tup::default()));
        }
    }
    for (i, (what, o)) in all.iter().enumerate() {
        cmp_val(&want, &Value::Tup(o.clone())).map_err(|e| format!("{}: {}", what, e))?;
        for (v, w) in e.vals.iter().zip(o.iter()) {
            same_place(what, v, w)?;
        }
        ensure!(o.len() == n && o.is_empty() == (n == 0), "{}: len is {}", what, o.len());
        ensure!(*o == all[0].1 && all[0].1 == *o, "{} and {} are not equal", what, all[0].0);
        ensure!(o.to_string() == all[0].1.to_string(), "{} and {} are displayed differently", what, all[0].0);
        ensure!(
            MT::Tup(o.inner_type_vec().iter().map(MT::from_over).collect()) == want.ty(),
            "{}: the types are {:?}, not {:?}",
            what,
            o.inner_type_vec(),
            want.ty()
        );
        for (_, p) in &all[..i] {
            ensure!(!o.ptr_eq(p) && o.id() != p.id(), "{} made an instance which exists already", what);
        }
    }

    // Arrays need one type.
    let want = MV::arr(models.clone());
    ctx.label(if want.is_some() { "array" } else { "no array" });
    let first = no_panic(|| Arr::from_values(e.vals.clone()))?;
    let second = no_panic(|| Arr::try_from(e.vals.clone()))?;
    let mut tries = vec![("Arr::from_values", first), ("Arr::try_from", second)];
    if n > 0 {
        tries.push(("try_arr!", no_panic(|| lists_try(&e, n, how))?));
        once("try_arr!", &e, n)?;
    }
    let mut all: Vec<(&str, Arr)> = vec![];
    let mut errs: Vec<(&str, OverError)> = vec![];
    for (what, r) in tries {
        match r {
            Ok(a) => all.push((what, a)),
            Err(e) => errs.push((what, e)),
        }
    }
    let want = match want {
        None => {
            ensure!(all.is_empty(), "{} accepted values of several types", all[0].0);
            for (what, err) in &errs {
                // Not by `==`, under which types with `Any` are equal to others.
                ensure!(
                    format!("{:?}", err) == format!("{:?}", errs[0].1),
                    "{} gives {:?}, {} gives {:?}",
                    what,
                    err,
                    errs[0].0,
                    errs[0].1
                );
            }
            if s.chance(1, 10) {
                ensure!(no_panic(|| lists(&e, n, how)).is_err(), "arr! accepted values of several types");
                once("arr!", &e, n)?;
            }
            return Ok(());
        }
        Some(w) => w,
    };
    if let Some((what, err)) = errs.first() {
        return Err(format!("{} gave {:?}", what, err));
    }
    all.push(("arr!", no_panic(|| lists(&e, n, how))?));
    once("arr!", &e, n)?;
    let t = match want.ty() {
        MT::Arr(t) => *t,
        t => return Err(format!("{}an array of type {:?}", HARNESS, t)),
    };
    all.push(("Arr::from_values_unchecked", Arr::from_values_unchecked(e.vals.clone(), t.to_over())));
    if n == 0 {
        for _ in 0..2 {
            all.push(("Arr::empty", Arr::empty()));
            all.push(("Arr::default", Arr::default()));
        }
    }
    for (i, (what, o)) in all.iter().enumerate() {
        cmp_val(&want, &Value::Arr(o.clone())).map_err(|e| format!("{}: {}", what, e))?;
        for (v, w) in e.vals.iter().zip(o.iter()) {
            same_place(what, v, w)?;
        }
        ensure!(o.len() == n && o.is_empty() == (n == 0), "{}: len is {}", what, o.len());
        ensure!(*o == all[0].1 && all[0].1 == *o, "{} and {} are not equal", what, all[0].0);
        ensure!(o.to_string() == all[0].1.to_string(), "{} and {} are displayed differently", what, all[0].0);
        ensure!(MT::from_over(&o.inner_type()) == t, "{}: the inner type is {:?}, not {:?}", what, o.inner_type(), t);
        for (_, p) in &all[..i] {
            ensure!(!o.ptr_eq(p) && o.id() != p.id(), "{} made an instance which exists already", what);
        }
    }
    Ok(())
}

fn c26_numbers(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = gen_int(s);
    let j = if s.bool() { gen_int(s) } else { BigInt::from(s.below(13)) };
    ctx.input = format!("{}, {}", i, j);
    ctx.nontrivial = i.is_negative() || i > BigInt::from(100);
    let is = |what: &str, a: BigInt, b: &BigInt| -> CaseResult {
        ensure!(a == *b, "int! of {} as {} is {}", b, what, a);
        Ok(())
    };
    let fr = |what: &str, f: BigRational, a: &BigInt, b: &BigInt| -> CaseResult {
        let (n, d) = (f.numer(), f.denom());
        ensure!(d.is_positive() && n * b == d * a, "frac! of {}/{} as {} is {}/{}", a, b, what, n, d);
        let (mut x, mut y) = (n.abs(), d.clone());
        while !y.is_zero() {
            let r = &x % &y;
            x = y;
            y = r;
        }
        ensure!(x.is_one(), "frac! of {}/{} as {} is {}/{}, not in lowest terms", a, b, what, n, d);
        let v: Value = f.clone().into();
        cmp_val(&MV::Frac(f), &v)?;
        Ok(())
    };
    is("BigInt", int!(i.clone()), &i)?;
    let mut widths = 0;
    macro_rules! width {
        ($($t:ty, $to:ident);+) => {$(
            if let Some(x) = i.$to() {
                widths += 1;
                is(stringify!($t), int!(x), &i)?;
                if let Some(y) = j.$to() {
                    if y != 0 {
                        fr(stringify!($t), no_panic(|| frac!(x, y))?, &i, &j)?;
                        fr("mixed", no_panic(|| frac!(i.clone(), y))?, &i, &j)?;
                        fr("mixed", no_panic(|| frac!(x, j.clone()))?, &i, &j)?;
                    }
                }
            }
        )+};
    }
    width!(u8, to_u8; u16, to_u16; u32, to_u32; u64, to_u64; usize, to_usize; i8, to_i8; i16, to_i16; i32, to_i32; i64, to_i64);
    ctx.label_if(widths > 0, "fits a native width");
    if !j.is_zero() {
        fr("BigInt", frac!(i.clone(), j.clone()), &i, &j)?;
    }
    // Elements of several native kinds in one call.
    if let (Some(a), Some(b)) = (i.to_i64(), j.to_u8()) {
        let text = i.to_string();
        let c = s.bool();
        let f = BigRational::new(i.clone(), BigInt::from(7));
        let all = MV::tup(vec![MV::Int(i.clone()), MV::Int(j.clone()), MV::str(&text), MV::Bool(c), MV::Frac(f.clone()), MV::Null, MV::str("é")]);
        let t = tup!(a, b, text.clone(), c, f.clone(), Value::Null, "é");
        cmp_val(&all, &t.clone().into()).map_err(|e| format!("tup! of natives: {}", e))?;
        let o = obj! { "a" => a, "b" => b, "c" => text.as_str(), "d" => c, "e" => f.clone(), "t" => t.clone() };
        let want = MObj {
            pairs: vec![
                ("a".into(), MV::Int(i.clone())),
                ("b".into(), MV::Int(j.clone())),
                ("c".into(), MV::str(&text)),
                ("d".into(), MV::Bool(c)),
                ("e".into(), MV::Frac(BigRational::new(i.clone(), BigInt::from(7)))),
                ("t".into(), all.clone()),
            ],
            parent: None,
        };
        cmp_obj(&want, &o).map_err(|e| format!("obj! of natives: {}", e))?;
        let p = obj! { "^" => o.clone(), "own" => arr![a, a + 0, i.clone(), 5u16] };
        let want = MObj {
            pairs: vec![("own".into(), MV::arr(vec![MV::Int(i.clone()), MV::Int(i.clone()), MV::Int(i.clone()), MV::int(5)]).unwrap())],
            parent: Some(Rc::new(want)),
        };
        cmp_obj(&want, &p).map_err(|e| format!("obj! of natives: {}", e))?;
        ctx.label("several kinds");
    }
    Ok(())
}

/// Items of a program's own with the names of the library's, and what it does with them.
const OWN: &str = "struct Pair(i32);
impl Pair {
    const N: i32 = 1;
    fn n(&self) -> i32 {
        self.0
    }
}
struct Obj;
impl Obj {
    const N: i32 = 2;
    fn empty() -> i32 {
        3
    }
}
enum Value {
    N = 4,
}
struct Arr;
impl Arr {
    fn from_values(x: i32) -> i32 {
        x
    }
}
struct Tup {
    n: u8,
}
mod types {
    pub enum Type {
        Int = 5,
    }
}
use types::Type;
struct BigInt;
impl BigInt {
    const N: i32 = 6;
}
struct BigRational(i8);
fn int(x: i32) -> i32 {
    x
}
mod over_ {
    pub const ZERO: i32 = 0;
}
";
const OWN_LOCALS: &str = "    let (pairs, _pairs, parent, _parent, field, _field, name, value, _b, b, int, o, e, v, r) = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);\n";
const OWN_EXPRS: [&str; 26] = [
    "Pair::N", "Pair(7).n()", "Obj::N", "Obj::empty()", "Value::N as i32", "Arr::from_values(x)", "Tup { n: 9 }.n", "Type::Int as i32",
    "BigInt::N", "BigRational(-3).0", "crate::int(x)", "over_::ZERO", "pairs", "_pairs", "parent", "_parent", "field", "_field", "name", "value", "_b", "b",
    "int", "o", "_pairs + _parent", "match Some(x) { Some(parent) => parent, None => _parent }",
];

/// Writes programs which use the macros.
struct Pg {
    /// How macros are reached.
    path: &'static str,
    /// What the names of the library's types begin with: the program has its own `Obj` and so on.
    pre: &'static str,
    left: usize,
}
impl Pg {
    fn sep(s: &mut Src, more: bool) -> &'static str {
        if more {
            *s.pick(&[", ", ",", ",\n    "])
        } else {
            *s.pick(&["", "", ",", ", ", ",\n"])
        }
    }
    fn braces(s: &mut Src, inner: String) -> String {
        match s.below(3) {
            0 => format!("({})", inner),
            1 => format!("[{}]", inner),
            _ => format!("{{{}}}", inner),
        }
    }
    fn list(&mut self, s: &mut Src, depth: usize, n: usize, one: bool) -> String {
        let mut t = String::new();
        for i in 0..n {
            t.push_str(&if one { self.int(s, depth) } else { self.any(s, depth) });
            t.push_str(Pg::sep(s, i + 1 < n));
        }
        t
    }
    /// An expression of an integer type.
    fn int(&mut self, s: &mut Src, depth: usize) -> String {
        if s.chance(1, 6) {
            return "h(x)?".into();
        }
        if !self.pre.is_empty() && s.chance(1, 3) {
            return s.pick(&OWN_EXPRS).to_string();
        }
        match s.below(if depth == 0 { 4 } else { 6 }) {
            0 => s.below(100).to_string(),
            1 => format!("-{}", s.below(100)),
            2 => format!("{}u8", s.below(100)),
            3 => "x".into(),
            4 => {
                let e = self.int(s, depth - 1);
                format!("{}int!({})", self.path, e)
            }
            _ => format!("{{ let y = x; y + {} }}", s.below(100)),
        }
    }
    /// An expression for an argument of a macro which makes values of them.
    fn any(&mut self, s: &mut Src, depth: usize) -> String {
        if depth == 0 || self.left == 0 {
            return match s.below(5) {
                0 => "true".into(),
                1 => "\"é\"".into(),
                2 => format!("{}Value::Null", self.pre),
                3 => "String::from(\"a\")".into(),
                _ => self.int(s, 0),
            };
        }
        match s.below(4) {
            0 => self.int(s, depth - 1),
            1 => self.made(s, depth, 0),
            2 => self.made(s, depth, 1),
            _ => self.made(s, depth, 2),
        }
    }
    /// An array, a tuple or an object.
    fn made(&mut self, s: &mut Src, depth: usize, kind: usize) -> String {
        self.left = self.left.saturating_sub(1);
        let n = s.usize(4);
        let d = depth.saturating_sub(1);
        match kind {
            0 if n > 0 && s.chance(1, 3) => format!("{}.unwrap()", self.tried(s, depth, 0)),
            0 => {
                let l = self.list(s, d, n, true);
                format!("{}arr!{}", self.path, Pg::braces(s, l))
            }
            1 => {
                let l = self.list(s, d, n, false);
                format!("{}tup!{}", self.path, Pg::braces(s, l))
            }
            _ if n > 0 && s.chance(1, 3) => format!("{}.unwrap()", self.tried(s, depth, 2)),
            _ => {
                let l = self.fields(s, d, n);
                format!("{}obj!{}", self.path, Pg::braces(s, l))
            }
        }
    }
    fn fields(&mut self, s: &mut Src, d: usize, n: usize) -> String {
        let mut t = String::new();
        let up = if n > 0 && s.chance(1, 3) { s.usize(n) } else { n };
        for i in 0..n {
            if i == up {
                t.push_str("\"^\" => ");
                t.push_str(&self.made(s, d, 2));
            } else {
                t.push_str(&match s.below(3) {
                    0 => format!("format!(\"f{}\")", i),
                    1 => format!("NAMES[{}]", i),
                    _ => format!("\"f{}\"", i),
                });
                t.push_str(" => ");
                t.push_str(&self.any(s, d));
            }
            t.push_str(Pg::sep(s, i + 1 < n));
        }
        t
    }
    /// The same as a result.
    fn tried(&mut self, s: &mut Src, depth: usize, kind: usize) -> String {
        let n = s.range(1, 4);
        let d = depth.saturating_sub(1);
        if kind == 0 {
            let l = self.list(s, d, n, true);
            format!("{}try_arr!{}", self.path, Pg::braces(s, l))
        } else {
            let l = self.fields(s, d, n);
            format!("{}try_obj!{}", self.path, Pg::braces(s, l))
        }
    }
    /// A function with a macro somewhere in it.
    fn function(&mut self, s: &mut Src, i: usize) -> String {
        self.left = 8;
        let kind = *s.pick(&[0, 2]);
        let ty = format!("{}{}", self.pre, if kind == 0 { "Arr" } else { "Obj" });
        let get = if kind == 0 { "arr" } else { "obj" };
        let mut head = format!("fn f{}(x: i32) -> OverResult<{}> {{\n", i, ty);
        if !self.pre.is_empty() {
            head.push_str(OWN_LOCALS);
        }
        let body = if s.bool() {
            let e = self.tried(s, 3, kind);
            match s.below(10) {
                0 => format!("    {}", e),
                1 => format!("    let r = {};\n    r", e),
                2 => format!("    match {} {{\n        Ok(o) => Ok(o),\n        e => e,\n    }}", e),
                3 => format!("    Ok({}?)", e),
                4 => format!("    let o: {} = {}?;\n    Ok(o)", ty, e),
                5 => format!("    return {};", e),
                6 => format!("    let g = |x: i32| {};\n    g(x)", e),
                7 => format!("    if let Ok(o) = {} {{\n        return Ok(o);\n    }}\n    Ok({}::empty())", e, ty),
                8 => format!("    let mut v = vec![{}];\n    v.remove(0)", e),
                _ => format!("    {}.map(|o| o.clone())", e),
            }
        } else {
            let e = self.made(s, 3, kind);
            match s.below(8) {
                0 => format!("    Ok({})", e),
                1 => format!("    let o = {};\n    Ok(o)", e),
                2 => format!("    let v: {}Value = {}.into();\n    v.get_{}()", self.pre, e, get),
                3 => format!("    Ok([{}].to_vec().remove(0))", e),
                4 => format!("    let (o, _) = ({}, x);\n    Ok(o)", e),
                5 => format!("    if {}.len() > 100 {{\n        return Ok({}::empty());\n    }}\n    Ok({})", e, ty, e),
                6 => format!("    Some({}).ok_or(OverError::NoParentFound)", e),
                _ => {
                    let t = self.made(s, 3, 1);
                    format!("    let t = {};\n    assert!(t == {});\n    Ok({})", t, t, e)
                }
            }
        };
        format!("{}{}\n}}\n", head, body)
    }
}

/// The newest library of that name among the build's dependencies.
fn built(deps: &std::path::Path, name: &str) -> Result<String, String> {
    let mut best = None;
    for e in std::fs::read_dir(deps).map_err(|e| format!("{}{}", HARNESS, e))?.flatten() {
        let f = e.file_name().to_string_lossy().to_string();
        if f.starts_with(&format!("lib{}-", name)) && f.ends_with(".rlib") {
            if let Ok(t) = e.metadata().and_then(|m| m.modified()) {
                if best.as_ref().map_or(true, |(b, _)| t > *b) {
                    best = Some((t, e.path().to_string_lossy().to_string()));
                }
            }
        }
    }
    best.map(|b| b.1).ok_or_else(|| format!("{}no library {} in {}", HARNESS, name, deps.display()))
}

/// The macros can be used wherever an expression can stand.
fn c26_programs(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut g = Pg { path: "", pre: "", left: 0 };
    let own = s.chance(1, 2);
    let (edition, head) = match s.below(4) {
        0 => ("2018", "#[macro_use]\nextern crate over;\n"),
        1 => ("2021", "#[macro_use]\nextern crate over;\n"),
        2 => {
            g.path = "over::";
            ("2018", "")
        }
        _ => {
            g.path = "over::";
            ("2021", "")
        }
    };
    let mut text = String::from("#![allow(warnings)]\n");
    text.push_str(head);
    if own {
        g.pre = "L";
        text.push_str("use over::{arr::Arr as LArr, obj::Obj as LObj, value::Value as LValue};\n");
        text.push_str(OWN);
    } else {
        text.push_str("use over::{arr::Arr, obj::Obj, tup::Tup, value::Value};\n");
    }
    text.push_str("use over::{OverError, OverResult};\nfn h(x: i32) -> OverResult<i32> {\n    Ok(x)\n}\nconst NAMES: [&str; 4] = [\"a\", \"b\", \"c\", \"d\"];\n");
    let n = s.range(1, 40);
    for i in 0..n {
        text.push_str(&g.function(s, i));
    }
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = true;
    ctx.label(if g.path.is_empty() { "macro_use" } else { "by path" });
    ctx.label_if(own, "own types of the same names");
    let exe = std::env::current_exe().map_err(|e| format!("{}{}", HARNESS, e))?;
    let deps = exe.parent().unwrap().join("deps");
    let dir = super::files::fresh_dir();
    let io = |e: std::io::Error| format!("{}{}", HARNESS, e);
    std::fs::write(dir.path().join("p.rs"), &text).map_err(io)?;
    let mut c = std::process::Command::new("rustc");
    c.current_dir(dir.path()).args(["--crate-type=lib", "--emit=metadata", "--cap-lints=allow", "p.rs", "--edition", edition, "-L"]);
    c.arg(format!("dependency={}", deps.display()));
    for l in ["over", "num_bigint", "num_rational"] {
        c.arg("--extern").arg(format!("{}={}", l, built(&deps, l)?));
    }
    let o = c.output().map_err(io)?;
    if o.status.success() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let first: String = err.lines().filter(|l| l.starts_with("error")).take(1).collect();
    if o.status.code() != Some(1) || first.contains("E0460") || first.contains("E0463") || first.contains("E0514") || first.is_empty() {
        return Err(format!("{}rustc: {} {}", HARNESS, o.status, err));
    }
    Err(format!("a program using the macros does not compile: {}", err.lines().take(12).collect::<Vec<_>>().join("\n")))
}

// --------------------------------------------------------------------------------------------- C27

fn word(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

/// Where `piece` stands in `msg` (from `from` on), not as a part of a longer word.
fn find_word(msg: &str, from: usize, piece: &str) -> Option<usize> {
    let mut at = from;
    while let Some(k) = msg[at..].find(piece) {
        let a = at + k;
        let b = a + piece.len();
        let before = msg[..a].chars().next_back();
        let after = msg[b..].chars().next();
        let l = piece.chars().next().map_or(false, word) && before.map_or(false, word);
        let r = piece.chars().next_back().map_or(false, word) && after.map_or(false, word);
        if !l && !r {
            return Some(a);
        }
        at = a + msg[a..].chars().next().map_or(1, |c| c.len_utf8());
        if at >= msg.len() {
            break;
        }
    }
    None
}

/// The message without the numbers of lines and columns.
fn without_place(msg: &str) -> String {
    let mut out = String::new();
    let mut rest = msg;
    'next: while !rest.is_empty() {
        for w in ["line ", "column ", "col "] {
            if let Some(r) = rest.strip_prefix(w) {
                let d = r.chars().take_while(|c| c.is_ascii_digit()).count();
                if d > 0 {
                    out.push_str(w);
                    rest = &r[d..];
                    continue 'next;
                }
            }
        }
        let c = rest.chars().next().unwrap();
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

/// The pieces stand in the message, in this order.
fn in_order(msg: &str, pieces: &[&str]) -> CaseResult {
    let mut at = 0;
    for p in pieces {
        match find_word(msg, at, p) {
            Some(k) => at = k + p.len(),
            None => return Err(format!("the message does not name {:?} (of {:?}, in this order): {:?}", p, pieces, msg)),
        }
    }
    Ok(())
}

/// The message says what was expected and what was found, each after the word for it (if it uses them).
fn expected_found(msg: &str, want: &str, have: &str) -> CaseResult {
    let low = msg.to_ascii_lowercase();
    match (low.find("expected "), low.find("found ")) {
        (Some(e), Some(f)) => {
            let (x, y) = (&msg[e + 9..], &msg[f + 6..]);
            let (x, y) = if e < f { (&msg[e + 9..f], y) } else { (x, &msg[f + 6..e]) };
            ensure!(find_word(x, 0, want) == Some(0), "the message does not name {} as expected: {:?}", want, msg);
            ensure!(find_word(y, 0, have) == Some(0), "the message does not name {} as found: {:?}", have, msg);
        }
        _ => {
            in_order(msg, &[want])?;
            in_order(msg, &[have])?;
        }
    }
    Ok(())
}

fn c27_types(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let a = gen_type_big(s, 4);
    let b = match s.below(4) {
        0 => gen_type_big(s, 4),
        1 => a.clone(),
        _ => near(s, &a),
    };
    ctx.input = format!("{:?} / {:?}", a, b);
    ctx.nontrivial = a.size() > 1 || b.size() > 1;
    ctx.label(if a == b { "same" } else { "different" });
    let (x, y) = (a.to_over().to_string(), b.to_over().to_string());
    ensure!((a == b) == (x == y), "{:?} is displayed as {:?}, {:?} as {:?}", a, x, b, y);
    // The basic types in it are named, in their order.
    fn leaves(t: &MT, out: &mut Vec<String>) {
        match t {
            MT::Arr(t) => {
                out.push("Arr".into());
                leaves(t, out);
            }
            MT::Tup(v) => {
                out.push("Tup".into());
                v.iter().for_each(|t| leaves(t, out));
            }
            t => out.push(format!("{:?}", t)),
        }
    }
    let mut want = vec![];
    leaves(&a, &mut want);
    let mut got = vec![];
    for w in x.split(|c: char| !c.is_ascii_alphanumeric()) {
        if !w.is_empty() {
            got.push(w.to_string());
        }
    }
    ensure!(want == got, "{:?} is displayed as {:?}", a, x);
    ensure!(a.to_over().to_string() == x, "{:?} is displayed in two ways", a);
    Ok(())
}

fn c27_api(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut g = VG::new(s);
    ctx.nontrivial = true;
    let index = |s: &mut Src, n: usize| match s.below(4) {
        0 => n,
        1 => n + s.usize(20),
        2 => usize::MAX - s.usize(3),
        _ => n.max(s.bits() as usize),
    };
    match s.below(6) {
        0 => {
            let n = s.length(6);
            let a = Arr::from_values((0..n).map(|i| Value::from(i)).collect()).map_err(|e| e.to_string())?;
            let i = index(s, n);
            ctx.input = format!("array of {} at {}", n, i);
            ctx.label("array index");
            match a.get(i) {
                Err(e) => {
                    in_order(&e.to_string(), &[&i.to_string()])?;
                    ensure!(e == OverError::ArrOutOfBounds(i), "{} gave {:?}", ctx.input, e);
                }
                r => return Err(format!("{} gave {:?}", ctx.input, r)),
            }
        }
        1 => {
            let n = s.length(6);
            let a = Tup::from_values((0..n).map(|i| Value::from(i)).collect());
            let i = index(s, n);
            ctx.input = format!("tuple of {} at {}", n, i);
            ctx.label("tuple index");
            match a.get(i) {
                Err(e) => {
                    in_order(&e.to_string(), &[&i.to_string()])?;
                    ensure!(e == OverError::TupOutOfBounds(i), "{} gave {:?}", ctx.input, e);
                }
                r => return Err(format!("{} gave {:?}", ctx.input, r)),
            }
        }
        2 => {
            let o = g.obj(s, 3);
            let name = if s.chance(1, 3) { gen_string(s) } else { gen_name(s) };
            if o.lookup(&name).is_some() {
                ctx.nontrivial = false;
                return Ok(());
            }
            let v = build_obj(&o)?;
            ctx.input = format!("field {:?}", name);
            ctx.label("missing field");
            let e = match s.below(7) {
                0 => v.get_bool(&name).err(),
                1 => v.get_int(&name).err(),
                2 => v.get_frac(&name).err(),
                3 => v.get_str(&name).err(),
                4 => v.get_arr(&name).err(),
                5 => v.get_tup(&name).err(),
                _ => v.get_obj(&name).err(),
            };
            let e = e.ok_or("a missing field was found")?;
            ensure!(e == OverError::FieldNotFound(name.clone()), "{} gave {:?}", ctx.input, e);
            in_order(&e.to_string(), &[&name])?;
        }
        3 => {
            let k = s.size(6);
            let at = s.usize(k + 1);
            let mut pairs: Vec<Pair> = (0..k).map(|i| Pair(format!("f{}", i), Value::from(i))).collect();
            let bad = loop {
                let t = gen_string(s);
                if !valid_name(&t) {
                    break t;
                }
                if s.chance(1, 2) {
                    break format!("{} ", t);
                }
            };
            pairs.insert(at, Pair(bad.clone(), Value::Null));
            ctx.input = format!("field {:?} after {} of {}", bad, at, k);
            ctx.label("illegal name");
            match Obj::from_pairs(pairs, None) {
                Err(e) => {
                    ensure!(e == OverError::InvalidFieldName(bad.clone()), "{} gave {:?}", ctx.input, e);
                    in_order(&e.to_string(), &[&bad])?;
                }
                r => return Err(format!("{} gave {:?}", ctx.input, r)),
            }
        }
        4 => {
            // The first element which does not fit, and the type of those before it.
            let t = gen_type(s, 3);
            let n = 1 + s.length(6);
            let mut vals: Vec<MV> = (0..n).map(|_| g.value(s, 4, Some(&t))).collect();
            let odd = if s.bool() { let t2 = near(s, &t); g.value(s, 4, Some(&t2)) } else { g.value(s, 4, None) };
            let at = s.range(1, n);
            vals.insert(at, odd);
            let mut so_far = MT::Any;
            let mut clash = None;
            for v in &vals {
                match MT::join(&so_far, &v.ty()) {
                    Some(t) => so_far = t,
                    None => {
                        clash = Some((so_far.clone(), v.ty()));
                        break;
                    }
                }
            }
            let (want, have) = match clash {
                Some(c) => c,
                None => {
                    ctx.nontrivial = false;
                    return Ok(());
                }
            };
            ctx.input = vals.iter().map(show_mv).collect::<Vec<_>>().join(", ");
            ctx.label("elements of different types");
            let vs = vals.iter().map(build).collect::<Result<Vec<_>, _>>()?;
            match Arr::from_values(vs) {
                Err(OverError::ArrTypeMismatch(a, b)) => {
                    ensure!(
                        MT::from_over(&a) == want && MT::from_over(&b) == have,
                        "the error names {:?} and {:?}, not {:?} and {:?}",
                        a,
                        b,
                        want,
                        have
                    );
                    let msg = OverError::ArrTypeMismatch(a, b).to_string();
                    expected_found(&msg, &type_name(&want), &type_name(&have))?;
                }
                r => return Err(format!("gave {:?}", r)),
            }
        }
        _ => {
            // Errors are told apart by their data.
            let (a, b) = (gen_type_any(s, 3), gen_type_any(s, 3));
            let i = s.bits() as usize >> s.usize(64);
            let name = gen_string(s);
            ctx.input = format!("{:?} {:?} {} {:?}", a, b, i, name);
            ctx.label("messages");
            let (x, y) = (type_name(&a), type_name(&b));
            expected_found(&OverError::TypeMismatch(a.to_over(), b.to_over()).to_string(), &x, &y)?;
            expected_found(&OverError::ArrTypeMismatch(a.to_over(), b.to_over()).to_string(), &x, &y)?;
            let m = OverError::TupTypeMismatch(a.to_over(), b.to_over(), i).to_string();
            expected_found(&m, &x, &y)?;
            in_order(&m, &[&i.to_string()])?;
            let texts = [
                OverError::ArrOutOfBounds(i).to_string(),
                OverError::TupOutOfBounds(i).to_string(),
                OverError::FieldNotFound(name.clone()).to_string(),
                OverError::InvalidFieldName(name.clone()).to_string(),
                OverError::NoParentFound.to_string(),
                OverError::ArrTypeMismatch(a.to_over(), b.to_over()).to_string(),
                OverError::TypeMismatch(a.to_over(), b.to_over()).to_string(),
                m,
            ];
            for (i, t) in texts.iter().enumerate() {
                ensure!(!t.is_empty() && !texts[..i].contains(t), "two kinds of errors have the message {:?}", t);
            }
            ensure!(OverError::ParseError(name.clone()).to_string().contains(&name), "a parse error loses its message");
            ensure!(OverError::IoError(name.clone()).to_string().contains(&name), "an I/O error loses its message");
        }
    }
    Ok(())
}

/// What a message has to say.
enum Says {
    /// These, in this order.
    Words(Vec<String>),
    Char(char),
    Types(MT, MT),
    /// The bracket found, and the one which was expected.
    Bracket(char, Option<char>),
}

fn says(msg: &str, w: &Says) -> CaseResult {
    match w {
        Says::Words(v) => in_order(msg, &v.iter().map(|x| &x[..]).collect::<Vec<_>>()),
        Says::Char(c) => {
            // As it is, or in some escaped form.
            let forms = [format!("'{}'", c), format!("{:?}", c), format!("\"{}\"", c), format!("`{}`", c)];
            ensure!(forms.iter().any(|f| msg.contains(f)), "the message does not name the character {:?}: {:?}", c, msg);
            Ok(())
        }
        Says::Types(a, b) => expected_found(msg, &type_name(a), &type_name(b)),
        Says::Bracket(found, want) => {
            let low = msg.to_ascii_lowercase();
            let (x, y) = match low.find("expected ") {
                Some(k) => (&msg[..k], &msg[k..]),
                None => (msg, msg),
            };
            ensure!(x.contains(*found), "the message does not name {:?} as found: {:?}", found, msg);
            if let Some(w) = want {
                ensure!(y.contains(*w), "the message does not name {:?} as expected: {:?}", w, msg);
                for c in ")]}>".chars() {
                    ensure!(c == *w || !y.contains(c), "the message names {:?} as expected: {:?}", c, msg);
                }
            }
            Ok(())
        }
    }
}

/// A simple value of some type, written out.
fn literal(s: &mut Src, t: &MT) -> (String, MV) {
    let mut g = VG::new(s);
    g.budget = g.budget.min(12);
    let v = g.value(s, 4, Some(t));
    (plain(&v), v)
}

/// One fault made of random things: the text, and what the message has to say. The text begins and ends
/// between fields.
fn fault(s: &mut Src, before: &str) -> (String, Says, &'static str) {
    let gap = |s: &mut Src| s.pick(&[" ", "\n", "\n\n\t", " # c\n ", "\r\n", "  "]).to_string();
    let mut name = gen_name(s);
    while before.contains(&format!("@{}", name)) {
        name.push('x');
    }
    let other = loop {
        let n = gen_name(s);
        if n != name {
            break n;
        }
        if s.chance(1, 2) {
            break format!("{}x", name);
        }
    };
    let g = gap(s);
    let names = |x: &str| Says::Words(vec![x.to_string()]);
    // A value and its type, bound to a variable or not.
    let typed = |s: &mut Src, t: &MT| literal(s, t);
    match s.below(20) {
        0 => (format!("zz:{g}{name}"), names(&name), "unknown variable"),
        1 => (format!("zz:{g}@{name}"), names(&format!("@{}", name)), "unknown global"),
        2 => {
            let (t, _) = (gen_type(s, 1), 0);
            let (x, _) = typed(s, &t);
            (format!("zz: {{ {name}: 1{g}{other}: {x}{g}{name}: {x} }}"), names(&name), "duplicate field")
        }
        3 => (format!("@{name}: 1{g}zz: {{ @{name}: 2 }}"), names(&format!("@{}", name)), "duplicate global"),
        4 => {
            let r = *s.pick(&RESERVED);
            (format!("zz: {{ {other}: 1{g}{r}: 1 }}"), names(r), "reserved name")
        }
        5 => {
            // A character which can't stand in a value.
            let c = loop {
                let c = gen_char(s);
                if c.is_control() || c.is_whitespace() || word(c) || is_start(c) {
                    if s.chance(1, 2) {
                        break '?';
                    }
                    continue;
                }
                if !"\"'\\#{}[]()<>:@^.+-*/%_,$".contains(c) {
                    break c;
                }
            };
            (format!("zz:{g}{c}"), Says::Char(c), "character for a value")
        }
        6 => {
            let c = loop {
                let c = gen_char(s);
                if !c.is_whitespace() && !is_part(c) && !"#{}[]()<>:@^".contains(c) {
                    break c;
                }
                if s.chance(1, 2) {
                    break '?';
                }
            };
            (format!("{name}{c}: 1"), Says::Char(c), "character for a field")
        }
        7 => {
            let c = loop {
                let c = gen_char(s);
                if !"nrt\"\\'$\n".contains(c) {
                    break c;
                }
                if s.chance(1, 2) {
                    break 'q';
                }
            };
            (format!("zz:{g}\"a\\{c}b\""), Says::Char(c), "escape")
        }
        8 | 9 => {
            // An element which does not fit.
            let t = gen_type(s, 2);
            let u = if s.bool() { near(s, &t) } else { gen_type(s, 2) };
            let n = s.range(1, 3);
            let mut vals: Vec<(String, MV)> = (0..n).map(|_| typed(s, &t)).collect();
            vals.push(typed(s, &u));
            let mut so_far = MT::Any;
            let mut out = None;
            for v in &vals {
                match MT::join(&so_far, &v.1.ty()) {
                    Some(t) => so_far = t,
                    None => {
                        out = Some((so_far.clone(), v.1.ty()));
                        break;
                    }
                }
            }
            let text = vals.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(&g);
            match out {
                Some((a, b)) => (format!("zz:{g}[{text}]"), Says::Types(a, b), "element type"),
                None => (format!("zz: [{text}] zy: {name}"), names(&name), "unknown variable"),
            }
        }
        10 | 11 => {
            // Operands which do not fit.
            let op = *s.pick(&['+', '-', '*', '/', '%']);
            let t = gen_type(s, 2);
            let u = if s.chance(1, 3) { near(s, &t) } else { gen_type(s, 2) };
            let (x, v) = typed(s, &t);
            let (y, w) = typed(s, &u);
            let num = |t: &MT| matches!(t, MT::Int | MT::Frac);
            let (a, b) = (v.ty(), w.ty());
            let fits = match op {
                '+' => num(&a) && num(&b) || a == MT::Str && b == MT::Str || matches!((&a, &b), (MT::Arr(_), MT::Arr(_))) && MT::compatible(&a, &b),
                '%' => num(&a) && num(&b),
                _ => num(&a) && num(&b),
            };
            if fits || b.has_any() || a.has_any() {
                return (format!("zz: {name}"), names(&name), "unknown variable");
            }
            (format!("za: {x} zb: {y}{g}zz: za{op}zb"), Says::Words(vec![op.to_string(), type_name(&a), type_name(&b)]), "operand types")
        }
        12 => {
            let op = *s.pick(&['+', '-']);
            let t = gen_type(s, 2);
            let (x, v) = typed(s, &t);
            if matches!(v.ty(), MT::Int | MT::Frac) {
                return (format!("zz: {name}"), names(&name), "unknown variable");
            }
            (format!("za: {x}{g}zz: {op}za"), Says::Words(vec![op.to_string(), type_name(&v.ty())]), "operand type")
        }
        13 => {
            let t = gen_type(s, 2);
            let (x, v) = typed(s, &t);
            if matches!(v, MV::Arr(_) | MV::Tup(_) | MV::Obj(_)) {
                return (format!("zz: {name}"), names(&name), "unknown variable");
            }
            (format!("za: {x}{g}zz: za.{name}"), Says::Words(vec![type_name(&v.ty())]), "dot on a scalar")
        }
        14 => {
            if s.chance(1, 5) {
                let found = *s.pick(&[']', ')', '}', '>']);
                let g = if s.bool() { g } else { String::new() };
                return (format!("{name}: 1{g}{found}"), Says::Bracket(found, None), "bracket");
            }
            let g = if s.bool() { g } else { String::new() };
            let open = *s.pick(&['[', '(', '{']);
            let want = match open {
                '[' => ']',
                '(' => ')',
                _ => '}',
            };
            let found = loop {
                let c = *s.pick(&[']', ')', '}', '>']);
                if c != want {
                    break c;
                }
            };
            let inner = if open == '{' { "a: 1" } else { "1" };
            let inner = if s.bool() { inner } else { "" };
            (format!("zz:{g}{open}{inner}{g}{found}"), Says::Bracket(found, Some(want)), "bracket")
        }
        15 => {
            // An index beyond the end, or none at all.
            let (open, close) = *s.pick(&[('[', ']'), ('(', ')')]);
            let n = s.usize(4);
            let els = vec!["7"; n].join(" ");
            let i = match s.below(5) {
                4 => num_traits::pow(BigInt::from(10), s.range(18, 120)) * if s.chance(1, 3) { -1 } else { 1 } + BigInt::from(s.below(1 << 60)),
                0 => BigInt::from(n),
                1 => BigInt::from(n + s.usize(100)),
                2 => BigInt::from(u64::MAX) * BigInt::from(1 + s.below(1000)) + BigInt::from(s.below(100)),
                _ => -BigInt::from(1 + s.below(1000)),
            };
            let direct = !i.is_negative() && s.bool();
            if direct {
                (format!("za: {open}{els}{close}{g}zz: za.{i}"), names(&i.to_string()), "index")
            } else {
                (format!("zi: {i} za: {open}{els}{close}{g}zz: za.zi"), names(&i.to_string()), "index")
            }
        }
        16 => {
            let t = gen_type(s, 2);
            let (x, v) = typed(s, &t);
            if matches!(v, MV::Int(_)) {
                return (format!("zz: {name}"), names(&name), "unknown variable");
            }
            (format!("zi: {x} za: [1 2]{g}zz: za.zi"), Says::Types(MT::Int, v.ty()), "index type")
        }
        17 => {
            let path = format!("no/such/{}", gen_name(s));
            let kw = *s.pick(&["", "Obj ", "Arr ", "Tup ", "Str "]);
            (format!("zz: <{kw}{g}\"{path}\">"), names(&path), "include path")
        }
        18 => {
            let t = gen_type(s, 2);
            let (x, v) = typed(s, &t);
            if matches!(v, MV::Str(_)) {
                return (format!("zz: {name}"), names(&name), "unknown variable");
            }
            if s.bool() {
                (format!("zz: <{x}{g}\"x\">"), Says::Words(vec![type_name(&v.ty())]), "include keyword")
            } else {
                let kw = *s.pick(&["Obj", "Arr", "Tup", "Str"]);
                (format!("za: {x} zz: <{kw}{g}za>"), Says::Types(MT::Str, v.ty()), "type of an include path")
            }
        }
        _ => {
            let t = gen_type(s, 2);
            let (x, v) = typed(s, &t);
            if matches!(v, MV::Obj(_)) {
                return (format!("zz: {name}"), names(&name), "unknown variable");
            }
            (format!("@za: {x} zz: {{{g}^: @za }}"), Says::Types(MT::Obj, v.ty()), "type of a parent")
        }
    }
}

fn c27_text(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut text = String::new();
    if s.chance(1, 3) {
        let mut c = Cfg::basic(s);
        c.budget = 6;
        let mut g = TG::new(c);
        g.doc(s);
        text = format!("zzp: {{\n{}\n}}\n", render(s, &g.toks, Style::Lines));
    }
    let (t, want, l) = fault(s, &text);
    text.push_str(&t);
    if s.bool() {
        text.push_str("\nzzz: 1");
    }
    ctx.label(l);
    ctx.input = text.clone();
    publish_input(&text);
    ctx.nontrivial = true;
    match parse(&text)? {
        Ok(o) => Err(format!("accepted as {}", show_mv(&MV::Obj(reify_obj(&o))))),
        Err(OverError::ParseError(m)) => {
            let shown = OverError::ParseError(m.clone()).to_string();
            ensure!(shown.contains(&m), "the error is displayed as {:?}, but is {:?}", shown, m);
            says(&without_place(&shown), &want)
        }
        Err(e) => Err(format!("not a parse error: {:?}", e)),
    }
}

/// Faults of files: the path as it is written is named.
fn c27_files(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::fs;
    let io = |e: std::io::Error| format!("{}{}", HARNESS, e);
    let dir = super::files::fresh_dir();
    let kw = *s.pick(&["", "Obj ", "Arr ", "Tup ", "Str "]);
    let target = format!("t{}.over", s.below(100));
    let spelt = match s.below(3) {
        0 => target.clone(),
        1 => format!("./{}", target),
        _ => dir.str(&target),
    };
    let path = dir.path().join("main.over");
    let main = path.to_str().unwrap().to_string();
    let pad = "# c\n".repeat(s.usize(4));
    ctx.nontrivial = true;
    let l = match s.below(4) {
        0 => "missing",
        1 => {
            fs::create_dir(dir.path().join(&target)).map_err(io)?;
            "a directory"
        }
        2 => {
            fs::write(dir.path().join(&target), b"a: 1 \xff\xfe\n").map_err(io)?;
            "not UTF-8"
        }
        _ => "cycle",
    };
    ctx.label(l);
    let mut text = format!("{}a: 1 zz: <{}\"{}\">", pad, kw, spelt);
    if l == "cycle" {
        let kw2 = *s.pick(&["", "Obj ", "Arr ", "Tup ", "Str "]);
        if s.bool() {
            text = format!("{}a: 1 zz: <{}\"{}\">", pad, kw2, "main.over");
            ctx.input = text.clone();
            fs::write(&path, &text).map_err(io)?;
            let e = match no_panic(|| Obj::from_file(&main))? {
                Err(e) => e.to_string(),
                Ok(_) => return Err("a file which includes itself is accepted".into()),
            };
            return in_order(&without_place(e.strip_prefix(&format!("{}: ", main)).unwrap_or(&e)), &["main.over"]);
        }
        text = format!("{}a: 1 zz: <{}\"{}\">", pad, kw2, spelt);
        let inner = match kw2 {
            "" | "Obj " => "b: <\"./main.over\">",
            "Str " => "",
            _ => "<\"./main.over\">",
        };
        fs::write(dir.path().join(&target), inner).map_err(io)?;
        ctx.input = format!("{} / {}", text, inner);
        fs::write(&path, &text).map_err(io)?;
        let r = no_panic(|| Obj::from_file(&main))?;
        if kw2 == "Str " {
            ctx.nontrivial = false;
            return r.map(|_| ()).map_err(|e| format!("rejected: {}", e));
        }
        let e = match r {
            Err(e) => e.to_string(),
            Ok(_) => return Err("a cycle is accepted".into()),
        };
        let k = e.find(": ").ok_or_else(|| format!("no file is named: {:?}", e))?;
        ensure!(e[..k].ends_with(&target), "the file {:?} with the closing include is not named: {:?}", target, e);
        return in_order(&without_place(&e[k..]), &["./main.over"]);
    }
    ctx.input = text.clone();
    fs::write(&path, &text).map_err(io)?;
    let e = match no_panic(|| Obj::from_file(&main))? {
        Err(e) => e.to_string(),
        Ok(_) => return Err("accepted".into()),
    };
    let body = e.strip_prefix(&format!("{}: ", main)).ok_or_else(|| format!("the including file is not named: {:?}", e))?;
    in_order(&without_place(body), &[&spelt])
}
