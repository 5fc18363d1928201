//! C21: accessors, lengths and merge flags tell the truth about a value.
use super::keys::{key, Key};
use super::merging::{build, build_map, mm, name};
use crate::explore::*;
use crate::gen::s;
use crate::model::{self, clip, MM, MV};
use crate::{ramp, Prop};
use fc::value::{Block, MapValues, Value};
use fc::{Error, KeyValuePairs, Mergeable, OneOrMany, ScalarLength};
use ferrous_chloride as fc;
use std::collections::HashMap;
use std::fmt::Debug;

fn scalars(v: &MV) -> usize {
    match v {
        MV::List(l) => l.iter().map(scalars).sum(),
        MV::Object(o) => o.iter().map(map_scalars).sum(),
        MV::Block(_, b) => b.iter().map(|x| map_scalars(&x.1)).sum(),
        _ => 1,
    }
}
fn map_scalars(m: &MM) -> usize {
    m.entries.iter().map(|x| scalars(&x.1)).sum()
}
/// Whether every map in it has the flag.
fn all(v: &MV, merged: bool) -> bool {
    match v {
        MV::List(l) => l.iter().all(|x| all(x, merged)),
        MV::Object(o) => o.iter().all(|m| all_map(m, merged)),
        MV::Block(f, b) => *f == merged && b.iter().all(|x| all_map(&x.1, merged)),
        _ => true,
    }
}
fn all_map(m: &MM, merged: bool) -> bool {
    m.merged == merged && m.entries.iter().all(|x| all(&x.1, merged))
}

fn want(what: &str, ok: bool, v: &MV) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("{} of {}", what, clip(&format!("{:?}", v))))
    }
}

fn refusal(e: &Error, exp: &str, act: &str) -> bool {
    matches!(e, Error::UnexpectedVariant { enum_type: "Value", expected, actual } if *expected == exp && *actual == act)
        && e.to_string().contains(exp)
        && e.to_string().contains(act)
}

/// Checks what one accessor gave.
fn access<T: Debug>(what: &str, m: &MV, kind: &str, got: Result<T, Error>, right: impl FnOnce(&T) -> bool) -> Result<(), String> {
    let ok = match &got {
        Ok(x) => kind == name(m) && right(x),
        Err(e) => kind != name(m) && refusal(e, kind, name(m)),
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} of {} gave {}", what, clip(&format!("{:?}", m)), clip(&format!("{:?}", got))))
    }
}

fn owning<'a, T: Debug>(what: &str, m: &MV, kind: &str, got: Result<T, (Error, Value<'a>)>, right: impl FnOnce(&T) -> bool) -> Result<(), String> {
    let got = match got {
        Ok(x) => Ok(x),
        Err((e, v)) => {
            if model::value(&v) != *m {
                return Err(format!("{} of {} gave back {}", what, clip(&format!("{:?}", m)), clip(&format!("{:?}", v))));
            }
            Err(e)
        }
    };
    access(what, m, kind, got, right)
}

fn unwrapping<T>(what: &str, m: &MV, kind: &str, f: impl FnOnce() -> T) -> Result<T, bool> {
    let _ = what;
    match guard(f) {
        Ok(x) if kind == name(m) => Ok(x),
        Err(_) if kind != name(m) => Err(true),
        _ => Err(false),
    }
}

fn unwrapped<T>(what: &str, m: &MV, kind: &str, f: impl FnOnce() -> T, right: impl FnOnce(T) -> bool) -> Result<(), String> {
    let ok = match unwrapping(what, m, kind, f) {
        Ok(x) => right(x),
        Err(b) => b,
    };
    want(what, ok, m)
}

fn judge(m: &MV, v: &Value<'static>, unwraps: bool) -> Result<(), String> {
    if model::value(v) != *m {
        return Err(format!("building {} gave {:?}", clip(&format!("{:?}", m)), v));
    }
    let scalar = !matches!(m, MV::List(_) | MV::Object(_) | MV::Block(..));
    want("variant_name", v.variant_name() == name(m), m)?;
    let is = [v.is_null(), v.is_integer(), v.is_float(), v.is_boolean(), v.is_string(), v.is_list(), v.is_map(), v.is_block()];
    let names = ["Null", "Integer", "Float", "Boolean", "String", "List", "Object", "Block"];
    want("is_*", is.iter().zip(&names).all(|(i, n)| *i == (*n == name(m))), m)?;
    want("is_body", v.is_body() == (name(m) == "Object"), m)?;
    want("is_scalar, is_aggregate", v.is_scalar() == scalar && v.is_aggregate() != scalar, m)?;
    let n = match m {
        MV::List(l) => l.len(),
        MV::Object(o) => o.len(),
        MV::Block(_, b) => b.len(),
        _ => 1,
    };
    want("len", v.len() == n && v.is_empty() == (n == 0), m)?;

    // lengths and flags, also through every container
    let k = scalars(m);
    let (mer, unm) = (all(m, true), all(m, false));
    want("len_scalar", v.len_scalar() == k && v.is_empty_scalar() == (k == 0), m)?;
    want("len_scalar of a reference", (&v).len_scalar() == k && <&Value as ScalarLength>::is_empty_scalar(&v) == (k == 0), m)?;
    want("is_merged", v.is_merged() == mer, m)?;
    want("is_unmerged", v.is_unmerged() == unm, m)?;
    want("is_merged, is_unmerged of a reference", <&Value as Mergeable>::is_merged(&v) == mer && <&Value as Mergeable>::is_unmerged(&v) == unm, m)?;
    let other = Value::from(MapValues::new_unmerged(vec![(Key::new_identifier("o"), Value::from(1))]));
    let done = Value::from(KeyValuePairs::Merged(std::iter::once((Key::new_identifier("o"), Value::from(1))).collect()));
    for (x, xm, xu) in [(&other, false, true), (&done, true, false)] {
        for l in [vec![v.clone(), x.clone()], vec![x.clone(), v.clone()], vec![Value::Null, v.clone(), x.clone()]] {
            let extra = l.len() - 1;
            want("len_scalar of a vector", l.len_scalar() == k + extra, m)?;
            want("flags of a vector", l.is_merged() == (mer && xm) && l.is_unmerged() == (unm && xu), m)?;
            let o = OneOrMany::Many(l.clone());
            want("flags of many", o.is_merged() == (mer && xm) && o.is_unmerged() == (unm && xu), m)?;
            let h: HashMap<usize, Value> = l.iter().cloned().enumerate().collect();
            want("len_scalar of a hash map", h.len_scalar() == k + extra, m)?;
            want("flags of a hash map", h.is_merged() == (mer && xm) && h.is_unmerged() == (unm && xu), m)?;
            let p = KeyValuePairs::Unmerged(l.iter().cloned().enumerate().collect());
            want("len_scalar of pairs", p.len_scalar() == k + extra, m)?;
            want("flags of unmerged pairs", !p.is_merged() && p.is_unmerged() == (unm && xu), m)?;
            let p = KeyValuePairs::Merged(h);
            want("len_scalar of merged pairs", p.len_scalar() == k + extra, m)?;
            want("flags of merged pairs", p.is_merged() == (mer && xm) && !p.is_unmerged(), m)?;
        }
        let a = [v.clone(), x.clone()];
        want("len_scalar of an array", a.len_scalar() == k + 1 && !a.is_empty_scalar(), m)?;
    }
    let one = OneOrMany::One(v.clone());
    want("flags of one", one.is_merged() == mer && one.is_unmerged() == unm, m)?;
    let pair = (1, v.clone());
    want("flags of a pair", pair.is_merged() == mer && pair.is_unmerged() == unm, m)?;
    want("len_scalar of arrays", [v.clone()].len_scalar() == k && [v.clone(), v.clone(), v.clone()].len_scalar() == 3 * k, m)?;

    // accessors
    access("integer", m, "Integer", v.integer(), |i| *m == MV::Int(*i))?;
    access("float", m, "Float", v.float(), |f| *m == MV::Float(f.to_bits()))?;
    access("boolean", m, "Boolean", v.boolean(), |b| *m == MV::Bool(*b))?;
    access("borrow_str", m, "String", v.borrow_str(), |t| *m == MV::Str(s(t)))?;
    access("borrow_list", m, "List", v.borrow_list(), |l| *m == MV::List(l.iter().map(model::value).collect()))?;
    access("borrow_map", m, "Object", v.borrow_map(), |o| *m == MV::Object(o.iter().map(model::map).collect()))?;
    access("borrow_block", m, "Block", v.borrow_block(), |b| *m == model::value(&Value::Block((*b).clone())))?;
    owning("string", m, "String", v.clone().string(), |t| *m == MV::Str(t.clone()))?;
    owning("list", m, "List", v.clone().list(), |l| *m == MV::List(l.iter().map(model::value).collect()))?;
    owning("map", m, "Object", v.clone().map(), |o| *m == MV::Object(o.iter().map(model::map).collect()))?;
    owning("block", m, "Block", v.clone().block(), |b| *m == model::value(&Value::Block(b.clone())))?;
    // shared access through a mutable reference changes what is there and nothing else
    let mut c = v.clone();
    access("borrow_string_mut", m, "String", c.borrow_string_mut().map(|t| {
        t.push('!');
        t.clone()
    }), |t| matches!(m, MV::Str(x) if *t == format!("{}!", x)))?;
    access("borrow_list_mut", m, "List", c.borrow_list_mut().map(|l| {
        l.push(Value::from("!"));
        l.len()
    }), |l| matches!(m, MV::List(x) if *l == x.len() + 1))?;
    access("borrow_map_mut", m, "Object", c.borrow_map_mut().map(|o| {
        o.push(build_map(&mm(vec![("!", MV::Null)]), 0));
        o.len()
    }), |l| matches!(m, MV::Object(x) if *l == x.len() + 1))?;
    access("borrow_block_mut", m, "Block", c.borrow_block_mut().map(|b| {
        b.extend(std::iter::once((vec![s("!")], build_map(&mm(vec![("!", MV::Null)]), 0))));
        b.len()
    }), |l| matches!(m, MV::Block(_, x) if *l == x.len() + 1))?;
    let changed = match m {
        MV::Str(t) => MV::Str(format!("{}!", t)),
        MV::List(l) => MV::List(l.iter().cloned().chain(std::iter::once(MV::Str(s("!")))).collect()),
        MV::Object(o) => MV::Object(o.iter().cloned().chain(std::iter::once(mm(vec![("!", MV::Null)]))).collect()),
        MV::Block(f, b) => {
            let mut b: Vec<_> = b.iter().cloned().chain(std::iter::once((vec![s("!")], mm(vec![("!", MV::Null)])))).collect();
            if *f {
                b.sort();
            }
            MV::Block(*f, b)
        }
        x => x.clone(),
    };
    want("changing a copy", model::value(&c) == changed && model::value(v) == *m, m)?;
    if unwraps {
        let mut c = v.clone();
        unwrapped("unwrap_integer", m, "Integer", || v.unwrap_integer(), |i| *m == MV::Int(i))?;
        unwrapped("unwrap_float", m, "Float", || v.unwrap_float(), |f| *m == MV::Float(f.to_bits()))?;
        unwrapped("unwrap_boolean", m, "Boolean", || v.unwrap_boolean(), |b| *m == MV::Bool(b))?;
        unwrapped("unwrap_borrow_str", m, "String", || v.unwrap_borrow_str(), |t| *m == MV::Str(s(t)))?;
        unwrapped("unwrap_borrow_string_mut", m, "String", || c.unwrap_borrow_string_mut().clone(), |t| *m == MV::Str(t))?;
        unwrapped("unwrap_borrow_list", m, "List", || v.unwrap_borrow_list().len(), |l| l == n)?;
        unwrapped("unwrap_borrow_list_mut", m, "List", || c.unwrap_borrow_list_mut().len(), |l| l == n)?;
        unwrapped("unwrap_borrow_map", m, "Object", || v.unwrap_borrow_map().len(), |l| l == n)?;
        unwrapped("unwrap_borrow_map_mut", m, "Object", || c.unwrap_borrow_map_mut().len(), |l| l == n)?;
        unwrapped("unwrap_borrow_block", m, "Block", || v.unwrap_borrow_block().len(), |l| l == n)?;
        unwrapped("unwrap_borrow_block_mut", m, "Block", || c.unwrap_borrow_block_mut().len(), |l| l == n)?;
        unwrapped("unwrap_string", m, "String", || v.clone().unwrap_string(), |t| *m == MV::Str(t))?;
        unwrapped("unwrap_list", m, "List", || v.clone().unwrap_list().len(), |l| l == n)?;
        unwrapped("unwrap_map", m, "Object", || v.clone().unwrap_map().len(), |l| l == n)?;
        unwrapped("unwrap_block", m, "Block", || v.clone().unwrap_block().len(), |l| l == n)?;
    }
    // equality and copies (no NaN here)
    want("equality with a clone", *v == v.clone() && *v == Value::from(v), m)?;
    want("equality with something else", *v != changed_kind(v), m)
}

fn changed_kind(v: &Value<'static>) -> Value<'static> {
    Value::List(vec![v.clone()])
}

/// A value of at most `budget` nodes.
pub fn value(ch: &mut Chooser, budget: &mut usize, depth: usize) -> MV {
    *budget = budget.saturating_sub(1);
    match ch.choose(if depth > 0 { 8 } else { 2 }) {
        0 => MV::Int(*budget as i64),
        1 => MV::Null,
        2 => MV::Str(s("t")),
        3 => MV::List(values(ch, budget, depth)),
        4 => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                v.push(map(ch, budget, depth));
            }
            MV::Object(v)
        }
        5 => {
            let merged = ch.flag();
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                let l = if merged { vec![format!("l{}", v.len())] } else { vec![] };
                v.push((l, map(ch, budget, depth)));
            }
            MV::Block(merged, v)
        }
        6 => MV::Float((0.5f64).to_bits()),
        _ => MV::Bool(true),
    }
}

fn values(ch: &mut Chooser, budget: &mut usize, depth: usize) -> Vec<MV> {
    let mut v = vec![];
    while *budget > 0 && ch.flag() {
        v.push(value(ch, budget, depth - 1));
    }
    v
}

pub fn map(ch: &mut Chooser, budget: &mut usize, depth: usize) -> MM {
    *budget = budget.saturating_sub(1);
    let merged = ch.flag();
    let entries = values(ch, budget, depth);
    let n = entries.len();
    MM { merged, entries: entries.into_iter().enumerate().map(|(i, v)| (if merged || n < 3 { format!("k{}", i) } else { s("k") }, v)).collect() }
}

fn finish(m: &MV, w: bool) -> Verdict {
    let v = build(m, 2);
    judge(m, &v, true)?;
    obs_with(model::hash(m), scalars(m) > 1, w, || format!("{:?}", m))
}

fn c21(t: bool) -> Vec<Family> {
    let budget = if t { 7 } else { 6 };
    let mut f = vec![Family::new("values", &format!("all values of up to {} nodes nested up to 3 deep, with merged and unmerged maps", budget), move |ch, w| {
        let mut b = budget;
        let m = value(ch, &mut b, 3);
        ch.note(|| format!("{:?}", m));
        finish(&m, w)
    })];
    f.push(Family::new("scalars", "every scalar kind with boundary contents", |ch, w| {
        let m = match ch.choose(5) {
            0 => MV::Null,
            1 => MV::Int(*ch.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::from(i32::MAX) + 1, -(1 << 53) - 1])),
            2 => MV::Float(ch.pick(&[0.0f64, -0.0, 1.0, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0]).to_bits()),
            3 => MV::Bool(ch.flag()),
            _ => MV::Str(s(ch.pick(&["", "a", "é\u{0}😀", "null", "1", "a\nb", "\"", " "]))),
        };
        ch.note(|| format!("{:?}", m));
        let v = build(&m, 0);
        judge(&m, &v, true)?;
        // the other constructors
        let again = match &m {
            MV::Int(i) => vec![Value::Integer(*i), Value::from(*i), Value::from(i)],
            MV::Float(x) => vec![Value::Float(f64::from_bits(*x)), Value::from(&f64::from_bits(*x))],
            MV::Bool(b) => vec![Value::Boolean(*b), Value::from(b)],
            MV::Str(x) => vec![Value::String(x.clone()), Value::from(x.clone()), Value::from(x), Value::from(x.as_str())],
            _ => vec![],
        };
        for a in again {
            if model::value(&a) != m {
                return Err(format!("another constructor of {:?} gave {:?}", m, a));
            }
        }
        let inside = MV::List(vec![m.clone(), MV::Object(vec![mm(vec![("k", m.clone())])])]);
        finish(&inside, false)?;
        obs_with(model::hash(&m), true, w, || format!("{:?}", m))
    }));
    f.push(Family::new("constructors", "lists, maps, blocks of up to 4 entries with 6 kinds of value through every constructor", |ch, w| {
        let n = ch.range(0, 4);
        let kinds = [MV::Null, MV::Int(7), MV::Str(s("x")), MV::List(vec![MV::Bool(true)]), MV::Object(vec![mm(vec![("k", MV::Null)])]), MV::Block(false, vec![(vec![s("l")], mm(vec![]))])];
        let vs: Vec<MV> = (0..n).map(|_| ch.pick(&kinds).clone()).collect();
        ch.note(|| format!("{:?}", vs));
        let b: Vec<Value<'static>> = vs.iter().map(|v| build(v, 0)).collect();
        let list = MV::List(vs.clone());
        for (how, v) in [
            ("new_list", Value::new_list(b.clone())),
            ("collect", b.iter().cloned().collect::<Value>()),
            ("From<Option<Vec>>", Value::from(Some(b.clone()))),
            ("List", Value::List(b.clone())),
        ] {
            if model::value(&v) != list {
                return Err(format!("{} of {:?} gave {:?}", how, vs, v));
            }
            judge(&list, &v, false)?;
        }
        want("From<None>", model::value(&Value::from(None::<Vec<Value>>)) == MV::List(vec![]), &list)?;
        let names = ["a", "b", "a", "c"];
        let entries = || b.iter().cloned().enumerate().map(|(i, v)| (key(names[i], i), v));
        let m = MM { merged: false, entries: vs.iter().enumerate().map(|(i, v)| (s(names[i]), v.clone())).collect() };
        let obj = MV::Object(vec![m.clone()]);
        for (how, v) in [
            ("new_single_map", Value::new_single_map(entries())),
            ("new_map", Value::new_map(vec![entries().collect::<Vec<_>>()])),
            ("From<MapValues>", Value::from(MapValues::new_unmerged(entries()))),
            ("From<Vec<MapValues>>", Value::from(vec![entries().collect::<MapValues>()])),
        ] {
            if model::value(&v) != obj {
                return Err(format!("{} of {:?} gave {:?}", how, vs, v));
            }
            judge(&obj, &v, false)?;
        }
        let two = Value::new_map(vec![entries().collect::<Vec<_>>(), vec![], entries().rev().collect()]);
        let mut rev = m.clone();
        rev.entries.reverse();
        let exp = MV::Object(vec![m.clone(), mm(vec![]), rev]);
        if model::value(&two) != exp {
            return Err(format!("new_map of {:?} three times gave {:?}", vs, two));
        }
        judge(&exp, &two, false)?;
        let labels: &'static [&'static str] = &["x", "", "y z"][..n.min(3)];
        let v = Value::new_block(labels, entries());
        let exp = MV::Block(false, vec![(labels.iter().map(|l| s(l)).collect(), m.clone())]);
        if model::value(&v) != exp || model::value(&Value::from(Block::new_unmerged(vec![(labels.to_vec(), entries().collect())]))) != exp {
            return Err(format!("new_block of {:?} gave {:?}", vs, v));
        }
        judge(&exp, &v, false)?;
        obs_with(model::hash(&vs), n > 1, w, || format!("{:?}", vs))
    }));
    f.push(Family::new("arrays", "arrays of 0 to 32 equal or alternating values", |ch, w| {
        let n = ch.range(0, 32);
        let vs = [MV::Null, MV::List(vec![]), MV::List(vec![MV::Int(1), MV::Int(2)]), MV::Object(vec![mm(vec![("a", MV::Null), ("a", MV::Null), ("b", MV::Null)])])];
        let (a, b) = (ch.pick(&vs).clone(), ch.pick(&vs).clone());
        let v: Vec<Value<'static>> = (0..n).map(|i| build(if i % 2 == 0 { &a } else { &b }, 0)).collect();
        let exp = (n + 1) / 2 * scalars(&a) + n / 2 * scalars(&b);
        fn of<const N: usize>(v: &[Value<'static>]) -> Option<[Value<'static>; N]> {
            if v.len() == N { Some(std::array::from_fn(|i| v[i].clone())) } else { None }
        }
        macro_rules! arrays {
            ($($n:literal)+) => {
                $(if let Some(x) = of::<$n>(&v) {
                    if x.len_scalar() != exp || x.is_empty_scalar() != (exp == 0) {
                        return Err(format!("an array of {} has scalar length {}, expected {}", $n, x.len_scalar(), exp));
                    }
                })+
            };
        }
        arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
        obs_with((n * 1000 + exp) as u64, n > 1, w, || format!("{} values {:?} and {:?}", n, a, b))
    }));
    let most = if t { 5 } else { 4 };
    f.push(Family::new("collections", &format!("vectors, tables, pairs, references, one-or-many values and key-value containers of up to {} of 10 kinds of value, merged or not", most), move |ch, w| {
        let one = |merged: bool, v: Vec<MV>| MV::Object(vec![MM { merged, entries: v.into_iter().enumerate().map(|(i, v)| (format!("k{}", i), v)).collect() }]);
        let kinds = [
            MV::Int(1),
            MV::List(vec![]),
            MV::List(vec![MV::Null, MV::Bool(true)]),
            one(true, vec![MV::Int(1), MV::Int(2)]),
            one(false, vec![MV::Int(1), MV::Int(2), MV::Int(3)]),
            one(true, vec![one(false, vec![MV::Null])]),
            one(false, vec![one(true, vec![])]),
            MV::List(vec![one(true, vec![]), one(false, vec![])]),
            MV::Block(true, vec![(vec![s("l")], MM { merged: true, entries: vec![(s("k"), MV::Str(s("x")))] })]),
            MV::Block(false, vec![]),
        ];
        let n = ch.range(0, most);
        let ms: Vec<MV> = (0..n).map(|_| ch.pick(&kinds).clone()).collect();
        ch.note(|| format!("{:?}", ms));
        let vs: Vec<Value<'static>> = ms.iter().map(|m| build(m, 0)).collect();
        let (merged, unmerged): (bool, bool) = (ms.iter().all(|m| all(m, true)), ms.iter().all(|m| all(m, false)));
        let count: usize = ms.iter().map(scalars).sum();
        let flags = |how: &str, got: (bool, bool), exp: (bool, bool)| if got == exp { Ok(()) } else { Err(format!("merged and unmerged are {:?} instead of {:?} for {} of {:?}", got, exp, how, ms)) };
        let lens = |how: &str, got: (usize, bool)| if got == (count, count == 0) { Ok(()) } else { Err(format!("the scalar length is {:?} instead of {} for {} of {:?}", got, count, how, ms)) };
        macro_rules! both {
            ($how:expr, $x:expr, $exp:expr) => {{
                let x = $x;
                flags($how, (x.is_merged(), x.is_unmerged()), $exp)?;
                lens($how, (x.len_scalar(), x.is_empty_scalar()))?;
                let x = &x;
                flags($how, (Mergeable::is_merged(&x), Mergeable::is_unmerged(&x)), $exp)?;
                lens($how, (ScalarLength::len_scalar(&x), ScalarLength::is_empty_scalar(&x)))?;
            }};
        }
        both!("a vector", vs.clone(), (merged, unmerged));
        both!("a vector of references", vs.iter().collect::<Vec<_>>(), (merged, unmerged));
        both!("a table", vs.iter().cloned().enumerate().collect::<HashMap<_, _>>(), (merged, unmerged));
        both!("merged pairs", KeyValuePairs::Merged(vs.iter().cloned().enumerate().collect::<HashMap<_, _>>()), (merged, false));
        both!("pairs not merged", KeyValuePairs::Unmerged(vs.iter().cloned().enumerate().collect::<Vec<_>>()), (false, unmerged));
        let many = OneOrMany::Many(vs.clone());
        flags("many values", (many.is_merged(), many.is_unmerged()), (merged, unmerged))?;
        let pairs: Vec<(usize, Value)> = vs.iter().cloned().enumerate().collect();
        flags("a vector of pairs", (pairs.is_merged(), pairs.is_unmerged()), (merged, unmerged))?;
        if n == 1 {
            let one = OneOrMany::One(vs[0].clone());
            flags("one value", (one.is_merged(), one.is_unmerged()), (merged, unmerged))?;
            flags("a pair", (pairs[0].is_merged(), pairs[0].is_unmerged()), (merged, unmerged))?;
        }
        obs_with(model::hash(&(merged, unmerged, count)), n > 1, w, || format!("{:?}", ms))
    }));
    f.push(Family::new("growth", &format!("lists, objects and blocks of up to {} items, merged or not, with one exception in one place", if t { 200000 } else { 65537 }), move |ch, w| {
        let mut sizes = ramp::sizes(t);
        sizes.extend(ramp::large(t));
        let n = *ch.pick(&sizes);
        let merged = ch.flag();
        let odd = ch.choose(4);
        let k = ch.choose(4);
        let at = [n, 0, n / 2, n.saturating_sub(1)][odd];
        let m = |i: usize, v: MV| MM { merged: merged != (i == at), entries: vec![(s("k"), v)] };
        let x = match k {
            0 => MV::List((0..n).map(|i| MV::Object(vec![m(i, MV::Int(i as i64))])).collect()),
            1 => MV::Object((0..n).map(|i| m(i, MV::Str(i.to_string()))).collect()),
            2 => {
                let mut b: Vec<_> = (0..n).map(|i| (vec![format!("{}", i)], m(i, MV::List(vec![MV::Null, MV::Bool(true)])))).collect();
                if merged {
                    b.sort();
                }
                MV::Block(merged, b)
            }
            _ => {
                let mut e: Vec<_> = (0..n).map(|i| (format!("k{}", i), MV::Object(vec![m(i, MV::Null)]))).collect();
                if merged {
                    e.sort();
                }
                MV::Object(vec![MM { merged, entries: e }])
            }
        };
        ch.note(|| clip(&format!("{:?}", x)));
        let v = build(&x, 0);
        judge(&x, &v, false)?;
        obs_with(model::hash(&(n, merged, odd, k)), n > 1, w, || format!("kind {} size {} merged {} exception {}", k, n, merged, odd))
    }));
    f.push(Family::new("depth", "values nested up to 150 deep in lists, objects and blocks, with one exception at every depth", |ch, w| {
        let n = *ch.pick(&ramp::depths());
        let how = ch.choose(4);
        let merged = ch.flag();
        let odd = match ch.choose(3) {
            0 => n + 1,
            1 => n / 2,
            _ => 0,
        };
        let mut v = MV::Int(1);
        for i in 0..n {
            let f = merged != (i == odd);
            let m = MM { merged: f, entries: vec![(s("k"), v)] };
            v = match (how, i % 3) {
                (0, _) | (3, 0) => MV::Object(vec![m]),
                (1, _) | (3, 1) => MV::List(vec![MV::Null, MV::Object(vec![m])]),
                _ => MV::Block(f, vec![(vec![s("l")], MM { merged, entries: m.entries })]),
            };
        }
        ch.note(|| clip(&format!("{:?}", v)));
        judge(&v, &build(&v, 0), false)?;
        obs_with(model::hash(&(n, merged, odd, how)), n > 0, w, || format!("way {} depth {} merged {} exception at {}", how, n, merged, odd))
    }));
    f
}

pub const C21: Prop = Prop {
    id: "C21",
    rule: "an execution builds a value from its model and compares what every accessor, length and flag says with the model; non-trivial: the value contains at least two scalars",
    assumptions: &["the public constructors put in what they are given (checked by reading it back)"],
    families: c21,
};
