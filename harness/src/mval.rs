//! Model values and types, the specification's own notion of a value, and how they are compared
//! with (and built as) values of the code under test.

use num_bigint::BigInt;
use num_rational::BigRational;
use over::arr::Arr;
use over::obj::{Obj, Pair};
use over::tup::Tup;
use over::types::Type;
use over::value::Value;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MT {
    Any,
    Null,
    Bool,
    Int,
    Frac,
    Str,
    Arr(Box<MT>),
    Tup(Vec<MT>),
    Obj,
}

impl MT {
    pub fn has_any(&self) -> bool {
        match self {
            MT::Any => true,
            MT::Arr(t) => t.has_any(),
            MT::Tup(v) => v.iter().any(MT::has_any),
            _ => false,
        }
    }
    /// The type both allow, with `Any` allowing everything.
    pub fn join(a: &MT, b: &MT) -> Option<MT> {
        match (a, b) {
            (MT::Any, x) | (x, MT::Any) => Some(x.clone()),
            (MT::Arr(x), MT::Arr(y)) => Some(MT::Arr(Box::new(MT::join(x, y)?))),
            (MT::Tup(x), MT::Tup(y)) => {
                if x.len() != y.len() {
                    return None;
                }
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(MT::join(&x[i], &y[i])?);
                }
                Some(MT::Tup(v))
            }
            _ if a == b => Some(a.clone()),
            _ => None,
        }
    }
    pub fn compatible(a: &MT, b: &MT) -> bool {
        MT::join(a, b).is_some()
    }
    pub fn to_over(&self) -> Type {
        match self {
            MT::Any => Type::Any,
            MT::Null => Type::Null,
            MT::Bool => Type::Bool,
            MT::Int => Type::Int,
            MT::Frac => Type::Frac,
            MT::Str => Type::Str,
            MT::Obj => Type::Obj,
            MT::Arr(t) => Type::Arr(Box::new(t.to_over())),
            MT::Tup(v) => Type::Tup(v.iter().map(MT::to_over).collect()),
        }
    }
    pub fn from_over(t: &Type) -> MT {
        match t {
            Type::Any => MT::Any,
            Type::Null => MT::Null,
            Type::Bool => MT::Bool,
            Type::Int => MT::Int,
            Type::Frac => MT::Frac,
            Type::Str => MT::Str,
            Type::Obj => MT::Obj,
            Type::Arr(t) => MT::Arr(Box::new(MT::from_over(t))),
            Type::Tup(v) => MT::Tup(v.iter().map(MT::from_over).collect()),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            MT::Arr(t) => 1 + t.size(),
            MT::Tup(v) => 1 + v.iter().map(MT::size).sum::<usize>(),
            _ => 1,
        }
    }
}

#[derive(Debug)]
pub struct MArr {
    pub vals: Vec<MV>,
    pub t: MT,
}

#[derive(Debug)]
pub struct MObj {
    pub pairs: Vec<(String, MV)>,
    pub parent: Option<Rc<MObj>>,
}

#[derive(Clone, Debug)]
pub enum MV {
    Null,
    Bool(bool),
    Int(BigInt),
    Frac(BigRational),
    Str(Rc<str>),
    Arr(Rc<MArr>),
    Tup(Rc<Vec<MV>>),
    Obj(Rc<MObj>),
}

impl MObj {
    pub fn own(&self, name: &str) -> Option<&MV> {
        self.pairs.iter().find(|(n, _)| n == name).map(|(_, v)| v)
    }
    /// The value of a field, own or inherited, and how many parents up it was found.
    pub fn lookup(&self, name: &str) -> Option<(&MV, usize)> {
        let mut o = self;
        let mut up = 0;
        loop {
            if let Some(v) = o.own(name) {
                return Some((v, up));
            }
            match &o.parent {
                Some(p) => {
                    o = p;
                    up += 1;
                }
                None => return None,
            }
        }
    }
    pub fn nesting(&self) -> usize {
        let a = self.pairs.iter().map(|(_, v)| v.nesting()).max().unwrap_or(0);
        let b = self.parent.as_ref().map_or(0, |p| p.nesting());
        1 + a.max(b)
    }
    pub fn size(&self) -> u64 {
        1 + self.pairs.iter().map(|(_, v)| v.size()).sum::<u64>() + self.parent.as_ref().map_or(0, |p| p.size())
    }
    pub fn same(&self, o: &MObj) -> bool {
        self.pairs.len() == o.pairs.len()
            && self.pairs.iter().zip(&o.pairs).all(|((n, v), (m, w))| n == m && v.same(w))
            && match (&self.parent, &o.parent) {
                (None, None) => true,
                (Some(a), Some(b)) => Rc::ptr_eq(a, b) || a.same(b),
                _ => false,
            }
    }
}

impl MV {
    pub fn str(s: &str) -> MV {
        MV::Str(Rc::from(s))
    }
    pub fn int<T: Into<BigInt>>(i: T) -> MV {
        MV::Int(i.into())
    }
    /// An array if some single type fits all the values.
    pub fn arr(vals: Vec<MV>) -> Option<MV> {
        let mut t = MT::Any;
        for v in &vals {
            t = MT::join(&t, &v.ty())?;
        }
        Some(MV::Arr(Rc::new(MArr { vals, t })))
    }
    pub fn tup(vals: Vec<MV>) -> MV {
        MV::Tup(Rc::new(vals))
    }
    pub fn obj(pairs: Vec<(String, MV)>, parent: Option<Rc<MObj>>) -> MV {
        MV::Obj(Rc::new(MObj { pairs, parent }))
    }
    pub fn ty(&self) -> MT {
        match self {
            MV::Null => MT::Null,
            MV::Bool(_) => MT::Bool,
            MV::Int(_) => MT::Int,
            MV::Frac(_) => MT::Frac,
            MV::Str(_) => MT::Str,
            MV::Arr(a) => MT::Arr(Box::new(a.t.clone())),
            MV::Tup(v) => MT::Tup(v.iter().map(MV::ty).collect()),
            MV::Obj(_) => MT::Obj,
        }
    }
    pub fn nesting(&self) -> usize {
        match self {
            MV::Arr(a) => 1 + a.vals.iter().map(MV::nesting).max().unwrap_or(0),
            MV::Tup(a) => 1 + a.iter().map(MV::nesting).max().unwrap_or(0),
            MV::Obj(o) => o.nesting(),
            _ => 0,
        }
    }
    /// Number of nodes when written out in full.
    pub fn size(&self) -> u64 {
        match self {
            MV::Arr(a) => 1 + a.vals.iter().map(MV::size).sum::<u64>(),
            MV::Tup(a) => 1 + a.iter().map(MV::size).sum::<u64>(),
            MV::Obj(o) => o.size(),
            _ => 1,
        }
    }
    /// Structural equality, with the field order significant.
    pub fn same(&self, o: &MV) -> bool {
        match (self, o) {
            (MV::Null, MV::Null) => true,
            (MV::Bool(a), MV::Bool(b)) => a == b,
            (MV::Int(a), MV::Int(b)) => a == b,
            (MV::Frac(a), MV::Frac(b)) => a.numer() == b.numer() && a.denom() == b.denom(),
            (MV::Str(a), MV::Str(b)) => a == b,
            (MV::Arr(a), MV::Arr(b)) => {
                Rc::ptr_eq(a, b)
                    || (a.vals.len() == b.vals.len() && a.vals.iter().zip(&b.vals).all(|(x, y)| x.same(y)))
            }
            (MV::Tup(a), MV::Tup(b)) => {
                Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y)))
            }
            (MV::Obj(a), MV::Obj(b)) => Rc::ptr_eq(a, b) || a.same(b),
            _ => false,
        }
    }
}

pub fn show_mv(v: &MV) -> String {
    fn go(v: &MV, out: &mut String) {
        if out.len() > 2000 {
            out.push('…');
            return;
        }
        match v {
            MV::Null => out.push_str("null"),
            MV::Bool(b) => out.push_str(&b.to_string()),
            MV::Int(i) => out.push_str(&i.to_string()),
            MV::Frac(f) => out.push_str(&format!("{}/{}", f.numer(), f.denom())),
            MV::Str(s) => out.push_str(&format!("{:?}", s)),
            MV::Arr(a) => {
                out.push('[');
                for (i, x) in a.vals.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    go(x, out);
                }
                out.push(']');
            }
            MV::Tup(a) => {
                out.push('(');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    go(x, out);
                }
                out.push(')');
            }
            MV::Obj(o) => {
                out.push('{');
                if let Some(p) = &o.parent {
                    out.push_str(" ^: ");
                    go(&MV::Obj(p.clone()), out);
                }
                for (n, x) in &o.pairs {
                    out.push_str(&format!(" {}: ", n));
                    go(x, out);
                }
                out.push_str(" }");
            }
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    s
}

/// What a value of the code under test is, by its public accessors.
pub fn show_val(v: &Value) -> String {
    let s = show_mv(&reify(v));
    s
}

/// The model value a value of the code under test presents.
pub fn reify(v: &Value) -> MV {
    match v {
        Value::Null => MV::Null,
        Value::Bool(b) => MV::Bool(*b),
        Value::Int(i) => MV::Int(i.clone()),
        Value::Frac(f) => MV::Frac(f.clone()),
        Value::Str(s) => MV::str(s),
        Value::Arr(a) => MV::Arr(Rc::new(MArr {
            vals: a.values_ref().iter().map(reify).collect(),
            t: MT::from_over(&a.inner_type()),
        })),
        Value::Tup(t) => MV::tup(t.values_ref().iter().map(reify).collect()),
        Value::Obj(o) => MV::Obj(reify_obj(o)),
    }
}
pub fn reify_obj(o: &Obj) -> Rc<MObj> {
    Rc::new(MObj {
        pairs: o.pairs_ref().iter().map(|Pair(n, v)| (n.clone(), reify(v))).collect(),
        parent: o.get_parent().map(|p| reify_obj(&p)),
    })
}

/// Compares exactly: kinds, contents, order, element types, and parents.
pub fn cmp_val(m: &MV, v: &Value) -> Result<(), String> {
    Cmp { seen: HashMap::new(), keep: vec![] }.val(m, v, &mut String::new())
}
pub fn cmp_obj(m: &MObj, o: &Obj) -> Result<(), String> {
    Cmp { seen: HashMap::new(), keep: vec![] }.obj(m, o, &mut String::new())
}

struct Cmp {
    // Pairs of instances already found to agree, so that shared values are compared once.
    seen: HashMap<(usize, usize), ()>,
    keep: Vec<Value>,
}

impl Cmp {
    fn fail<T>(&self, path: &str, what: String) -> Result<T, String> {
        Err(format!("at {}: {}", if path.is_empty() { "." } else { path }, what))
    }
    fn val(&mut self, m: &MV, v: &Value, path: &mut String) -> Result<(), String> {
        let bad = |p: &str| {
            Err(format!(
                "at {}: expected {}, found {}",
                if p.is_empty() { "." } else { p },
                show_mv(m),
                show_val(v)
            ))
        };
        match (m, v) {
            (MV::Null, Value::Null) => Ok(()),
            (MV::Bool(a), Value::Bool(b)) if a == b => Ok(()),
            (MV::Int(a), Value::Int(b)) if a == b => Ok(()),
            (MV::Frac(a), Value::Frac(b)) if a.numer() == b.numer() && a.denom() == b.denom() => Ok(()),
            (MV::Str(a), Value::Str(b)) if **a == **b => Ok(()),
            (MV::Arr(a), Value::Arr(b)) => {
                let key = (Rc::as_ptr(a) as usize, b.values_ref() as *const _ as usize);
                if self.seen.contains_key(&key) {
                    return Ok(());
                }
                self.seq(&a.vals, b.values_ref(), path)?;
                let t = MT::from_over(&b.inner_type());
                if t != a.t {
                    return self.fail(path, format!("element type is {:?}, expected {:?}", t, a.t));
                }
                self.seen.insert(key, ());
                self.keep.push(v.clone());
                Ok(())
            }
            (MV::Tup(a), Value::Tup(b)) => {
                let key = (Rc::as_ptr(a) as usize, b.values_ref() as *const _ as usize);
                if self.seen.contains_key(&key) {
                    return Ok(());
                }
                self.seq(a, b.values_ref(), path)?;
                let t: Vec<MT> = b.inner_type_vec().iter().map(MT::from_over).collect();
                let want: Vec<MT> = a.iter().map(MV::ty).collect();
                if t != want {
                    return self.fail(path, format!("element types are {:?}, expected {:?}", t, want));
                }
                self.seen.insert(key, ());
                self.keep.push(v.clone());
                Ok(())
            }
            (MV::Obj(a), Value::Obj(b)) => self.obj(a, b, path),
            _ => bad(path),
        }
    }
    fn seq(&mut self, a: &[MV], b: &[Value], path: &mut String) -> Result<(), String> {
        if a.len() != b.len() {
            return self.fail(path, format!("has {} elements, expected {}", b.len(), a.len()));
        }
        for i in 0..a.len() {
            let n = path.len();
            path.push_str(&format!(".{}", i));
            self.val(&a[i], &b[i], path)?;
            path.truncate(n);
        }
        Ok(())
    }
    fn obj(&mut self, a: &MObj, b: &Obj, path: &mut String) -> Result<(), String> {
        let key = (a as *const MObj as usize, b.pairs_ref() as *const _ as usize);
        if self.seen.contains_key(&key) {
            return Ok(());
        }
        let names: Vec<&str> = b.pairs_ref().iter().map(|Pair(n, _)| n.as_str()).collect();
        let want: Vec<&str> = a.pairs.iter().map(|(n, _)| n.as_str()).collect();
        if names != want {
            return self.fail(path, format!("has fields {:?}, expected {:?}", names, want));
        }
        for i in 0..a.pairs.len() {
            let n = path.len();
            path.push_str(&format!(".{}", a.pairs[i].0));
            self.val(&a.pairs[i].1, &b.pairs_ref()[i].1, path)?;
            path.truncate(n);
        }
        match (&a.parent, b.get_parent()) {
            (None, None) => {}
            (Some(p), Some(q)) => {
                let n = path.len();
                path.push_str(".^");
                self.obj(p, &q, path)?;
                path.truncate(n);
            }
            (None, Some(_)) => return self.fail(path, "has an unexpected parent".into()),
            (Some(_), None) => return self.fail(path, "has no parent".into()),
        }
        self.seen.insert(key, ());
        self.keep.push(Value::Obj(b.clone()));
        Ok(())
    }
}

/// Builds a value through the checked API. Instances shared in the model are shared in the result.
pub fn build(m: &MV) -> Result<Value, String> {
    Builder::default().val(m)
}
pub fn build_obj(m: &Rc<MObj>) -> Result<Obj, String> {
    Builder::default().obj(m)
}

/// Builds values without sharing instances.
pub fn build_unshared(m: &MV) -> Result<Value, String> {
    Builder { share: false, ..Builder::default() }.val(m)
}

pub struct Builder {
    memo: HashMap<usize, Value>,
    pub share: bool,
}
impl Default for Builder {
    fn default() -> Self {
        Builder { memo: HashMap::new(), share: true }
    }
}
impl Builder {
    pub fn val(&mut self, m: &MV) -> Result<Value, String> {
        Ok(match m {
            MV::Null => Value::Null,
            MV::Bool(b) => Value::Bool(*b),
            MV::Int(i) => Value::Int(i.clone()),
            MV::Frac(f) => Value::Frac(f.clone()),
            MV::Str(s) => Value::Str(s.to_string()),
            MV::Arr(a) => {
                let k = Rc::as_ptr(a) as usize;
                if let (true, Some(v)) = (self.share, self.memo.get(&k)) {
                    return Ok(v.clone());
                }
                let vals = a.vals.iter().map(|x| self.val(x)).collect::<Result<Vec<_>, _>>()?;
                let v: Value = Arr::from_values(vals)
                    .map_err(|e| format!("Arr::from_values rejected the values of {}: {}", show_mv(m), e))?
                    .into();
                self.memo.insert(k, v.clone());
                v
            }
            MV::Tup(a) => {
                let k = Rc::as_ptr(a) as usize;
                if let (true, Some(v)) = (self.share, self.memo.get(&k)) {
                    return Ok(v.clone());
                }
                let vals = a.iter().map(|x| self.val(x)).collect::<Result<Vec<_>, _>>()?;
                let v: Value = Tup::from_values(vals).into();
                self.memo.insert(k, v.clone());
                v
            }
            MV::Obj(o) => Value::Obj(self.obj(o)?),
        })
    }
    pub fn obj(&mut self, o: &Rc<MObj>) -> Result<Obj, String> {
        let k = Rc::as_ptr(o) as usize;
        if let (true, Some(Value::Obj(v))) = (self.share, self.memo.get(&k)) {
            return Ok(v.clone());
        }
        let mut pairs = vec![];
        for (n, v) in &o.pairs {
            pairs.push(Pair(n.clone(), self.val(v)?));
        }
        let parent = match &o.parent {
            Some(p) => Some(self.obj(p)?),
            None => None,
        };
        let r = Obj::from_pairs(pairs, parent).map_err(|e| format!("Obj::from_pairs rejected legal fields: {}", e))?;
        self.memo.insert(k, Value::Obj(r.clone()));
        Ok(r)
    }
}
