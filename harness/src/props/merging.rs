//! C19: merging keeps every entry or reports the conflict.
use super::keys::{key, Key};
use crate::explore::*;
use crate::gen::s;
use crate::model::{self, clip, MM, MV};
use crate::render::quote;
use crate::{ramp, Prop};
use fc::value::{Block, MapValues, Value};
use fc::{Error, KeyValuePairs, MergeBehaviour, Mergeable};
use ferrous_chloride as fc;
use std::collections::HashMap;

/// Builds a value from its model through the public constructors.
pub fn build(v: &MV, form: usize) -> Value<'static> {
    match v {
        MV::Null => Value::Null,
        MV::Int(i) => Value::from(*i),
        MV::Float(f) => Value::from(f64::from_bits(*f)),
        MV::Bool(b) => Value::from(*b),
        MV::Str(t) => Value::from(t.as_str()),
        MV::List(l) => Value::new_list(l.iter().map(|x| build(x, form))),
        MV::Object(o) => Value::from(o.iter().map(|m| build_map(m, form)).collect::<Vec<_>>()),
        MV::Block(false, b) => Value::Block(Block::new_unmerged(b.iter().map(|(l, m)| (l.clone(), build_map(m, form))))),
        MV::Block(true, b) => Value::Block(KeyValuePairs::Merged(b.iter().map(|(l, m)| (l.clone(), build_map(m, form))).collect())),
    }
}

/// The form decides whether the keys are quoted.
pub fn build_map(m: &MM, form: usize) -> MapValues<'static> {
    let n = m.entries.len();
    let e = m.entries.iter().enumerate().map(|(i, (k, v))| {
        let q = match form {
            0 => 2,
            1 => 1,
            _ => 1 + (i + n) % 2,
        };
        let k: Key<'static> = key(k, q).as_owned();
        (k, build(v, form))
    });
    if m.merged {
        KeyValuePairs::Merged(e.collect())
    } else {
        MapValues::new_unmerged(e)
    }
}

pub fn mm(entries: Vec<(&str, MV)>) -> MM {
    MM { merged: false, entries: entries.into_iter().map(|(k, v)| (s(k), v)).collect() }
}

/// Every conflict a map has, at any level, as the error that may report it.
fn conflicts(m: &MM, out: &mut Vec<String>) {
    let mut first: HashMap<&str, usize> = HashMap::new();
    let mut labels: HashMap<&str, std::collections::HashSet<&Vec<String>>> = HashMap::new();
    for (i, (k, v)) in m.entries.iter().enumerate() {
        inner(v, out);
        let f = *first.entry(k).or_insert(i);
        let seen = labels.entry(k).or_default();
        if let MV::Block(_, b) = v {
            let mut now = vec![];
            for (l, _) in b {
                if seen.contains(l) {
                    out.push(multiple(&format!("{} {}", k, l.join(" ")), "Block"));
                }
                now.push(l);
            }
            seen.extend(now);
        }
        if f == i {
            continue;
        }
        let was = name(&m.entries[f].1);
        match was {
            "Object" | "Block" => {
                if name(v) != was {
                    out.push(format!("ErrorMergingKeys {:?} {} {}", k, was, name(v)));
                }
            }
            _ => out.push(multiple(k, was)),
        }
    }
}

fn inner(v: &MV, out: &mut Vec<String>) {
    match v {
        MV::List(l) => l.iter().for_each(|x| inner(x, out)),
        MV::Object(o) => o.iter().for_each(|m| conflicts(m, out)),
        MV::Block(_, b) => {
            let mut seen = std::collections::HashSet::new();
            for (l, m) in b {
                conflicts(m, out);
                if !seen.insert(l) {
                    out.push(multiple(&l.join(" "), "Block"));
                }
            }
        }
        _ => {}
    }
}

fn multiple(key: &str, variant: &str) -> String {
    format!("IllegalMultipleEntries {:?} {}", key, variant)
}

pub fn name(v: &MV) -> &'static str {
    match v {
        MV::Null => "Null",
        MV::Int(_) => "Integer",
        MV::Float(_) => "Float",
        MV::Bool(_) => "Boolean",
        MV::Str(_) => "String",
        MV::List(_) => "List",
        MV::Object(_) => "Object",
        MV::Block(..) => "Block",
    }
}

/// The merged map, when there is no conflict.
fn merged(m: &MM) -> MM {
    let mut out: Vec<(String, MV)> = vec![];
    let mut at: HashMap<&str, usize> = HashMap::new();
    for (k, v) in &m.entries {
        let v = merged_value(v);
        match at.get(k.as_str()) {
            None => {
                at.insert(k, out.len());
                out.push((k.clone(), v));
            }
            Some(i) => match (&mut out[*i].1, v) {
                (MV::Object(a), MV::Object(b)) => a.extend(b),
                (MV::Block(_, a), MV::Block(_, b)) => {
                    a.extend(b);
                    a.sort();
                }
                _ => unreachable!(),
            },
        }
    }
    out.sort();
    MM { merged: true, entries: out }
}

fn merged_value(v: &MV) -> MV {
    match v {
        MV::List(l) => MV::List(l.iter().map(merged_value).collect()),
        MV::Object(o) => MV::Object(o.iter().map(merged).collect()),
        MV::Block(_, b) => {
            let mut b: Vec<_> = b.iter().map(|(l, m)| (l.clone(), merged(m))).collect();
            b.sort();
            MV::Block(true, b)
        }
        x => x.clone(),
    }
}

fn error(e: &Error) -> String {
    match e {
        Error::IllegalMultipleEntries { key, variant } => multiple(key, variant),
        Error::ErrorMergingKeys { key, existing_variant, incoming_variant } => {
            format!("ErrorMergingKeys {:?} {} {}", key, existing_variant, incoming_variant)
        }
        e => format!("{:?}", e),
    }
}

/// What merging has to give: the map or one of the errors.
pub fn expected(m: &MM) -> Result<MM, Vec<String>> {
    let mut c = vec![];
    conflicts(m, &mut c);
    if c.is_empty() {
        Ok(merged(m))
    } else {
        Err(c)
    }
}

fn same(how: &str, m: &MM, got: Result<MM, String>, exp: &Result<MM, Vec<String>>) -> Result<(), String> {
    let ok = match (&got, exp) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => b.contains(a),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} of {}\n  got      {}\n  expected {}", how, clip(&format!("{:?}", m)), clip(&format!("{:?}", got)), clip(&format!("{:?}", exp))))
    }
}

fn judge(m: &MM, form: usize, w: bool) -> Verdict {
    let exp = expected(m);
    let v = build_map(m, form);
    let see = |r: &Result<MapValues<'static>, Error>| r.as_ref().map(model::map).map_err(error);
    let a = v.as_merged();
    same("as_merged", m, see(&a), &exp)?;
    if model::map(&v) != *m {
        return Err(format!("as_merged changed {:?}", m));
    }
    let b = v.clone().merge();
    same("merge", m, see(&b), &exp)?;
    if let KeyValuePairs::Unmerged(l) = &v {
        same("new_merged", m, see(&MapValues::new_merged(l.clone())), &exp)?;
    }
    // as a value: in an object, in a list, under a label
    let o = Value::from(v.clone());
    let r = o.clone().merge().map(|x| x.unwrap_map());
    let r = r.map(|mut l| (l.len(), l.pop())).map_err(|e| error(&e));
    let r = r.and_then(|(n, x)| x.filter(|_| n == 1).map(|x| model::map(&x)).ok_or_else(|| s("another number of maps")));
    same("merge of the object", m, r, &exp)?;
    let l = Value::List(vec![Value::Null, o, Value::from(1)]).merge().map(|x| model::value(&x)).map_err(|e| error(&e));
    let r = l.and_then(|l| match l {
        MV::List(l) if l.len() == 3 && l[0] == MV::Null && l[2] == MV::Int(1) => match &l[1] {
            MV::Object(o) if o.len() == 1 => Ok(o[0].clone()),
            x => Err(format!("{:?}", x)),
        },
        x => Err(format!("{:?}", x)),
    });
    same("merge of the list", m, r, &exp)?;
    let block = Block::new_unmerged(vec![(vec!["x"], v.clone())]);
    let r = block.as_merged().map(|b| model::value(&Value::Block(b))).map_err(|e| error(&e));
    let direct = block.clone().merge().map(|b| model::value(&Value::Block(b))).map_err(|e| error(&e));
    let value = Value::Block(block).merge().map(|b| model::value(&b)).map_err(|e| error(&e));
    for (how, r) in [("as_merged of the block", r), ("merge of the block", direct), ("merge of the block value", value)] {
        let r = r.and_then(|b| match b {
            MV::Block(true, b) if b.len() == 1 && b[0].0 == ["x"] => Ok(b[0].1.clone()),
            x => Err(format!("{:?}", x)),
        });
        same(how, m, r, &exp)?;
    }
    if let Ok(b) = b {
        if !b.is_merged() {
            return Err(format!("the merged form of {:?} does not report being merged", m));
        }
        if a.as_ref().ok() != Some(&b) {
            return Err(format!("as_merged and merge of {:?} differ", m));
        }
        same("merging again", m, see(&b.clone().merge()), &exp)?;
        same("merging a copy again", m, see(&b.as_merged()), &exp)?;
        let mut un = model::map(&b.as_unmerged());
        let un2 = b.clone().unmerge();
        let flat = model::map(&b).entries;
        let order = un == model::map(&un2);
        un.entries.sort();
        if un.merged || un.entries != flat || model::map(&b.as_unmerged()).entries.len() != flat.len() || !order {
            return Err(format!("unmerging {:?} gave {:?}", m, un));
        }
        if model::map(&v.as_unmerged()) != *m || model::map(&v.clone().unmerge()) != *m {
            return Err(format!("unmerging the unmerged {:?} changed it", m));
        }
        same("merging the unmerged again", m, see(&un2.merge()), &exp)?;
        for (k, x) in b.iter() {
            let again = x.clone().merge().map(|y| model::value(&y));
            if again.as_ref().ok() != Some(&model::value(x)) {
                return Err(format!("merging the value of {:?} in {:?} again gave {:?}", k, m, again));
            }
        }
    }
    let class = model::hash(&match &exp {
        Ok(m) => format!("{:?}", m),
        Err(c) => c.join("|"),
    });
    obs_with(class, m.entries.len() > 1, w, || format!("{:?} -> {}", m, if exp.is_ok() { "merged" } else { "conflict" }))
}

fn see_block(b: &Result<Block<'static>, Error>) -> Result<MM, String> {
    // a block in the place of a map's only entry
    b.as_ref().map(|b| mm(vec![("b", model::value(&Value::Block(b.clone())))])).map_err(error)
}

/// A block on its own.
fn judge_block(entries: &[(Vec<String>, MM)], form: usize, w: bool) -> Verdict {
    let m = mm(vec![("b", MV::Block(false, entries.to_vec()))]);
    let exp = expected(&m).map(|x| mm(vec![("b", x.entries[0].1.clone())]));
    let list: Vec<(Vec<String>, MapValues<'static>)> = entries.iter().map(|(l, x)| (l.clone(), build_map(x, form))).collect();
    let v: Block<'static> = Block::new_unmerged(list.clone());
    if see_block(&Ok(v.clone())).as_ref() != Ok(&m) {
        return Err(format!("new_unmerged gave {:?} for {:?}", v, m));
    }
    let a = v.as_merged();
    same("as_merged of the block", &m, see_block(&a), &exp)?;
    same("new_merged of the block", &m, see_block(&Block::new_merged(list.iter().map(|(l, x)| (l.iter().map(String::as_str), x.clone())))), &exp)?;
    let b = v.clone().merge();
    same("merge of the block", &m, see_block(&b), &exp)?;
    for (how, u) in [("unmerge", v.clone().unmerge()), ("as_unmerged", v.as_unmerged())] {
        if see_block(&Ok(u)).as_ref() != Ok(&m) {
            return Err(format!("{} of a block that is not merged changed {:?}", how, m));
        }
    }
    if let Ok(b) = b {
        if !b.is_merged() {
            return Err(format!("the merged block of {:?} does not report being merged", m));
        }
        same("merging the block again", &m, see_block(&b.clone().merge()), &exp)?;
        same("merging a copy of the block again", &m, see_block(&b.as_merged()), &exp)?;
        let flat = match model::value(&Value::Block(b.clone())) {
            MV::Block(true, l) => l,
            x => return Err(format!("merge of the block {:?} gave {:?}", m, x)),
        };
        for (how, u) in [("unmerge", b.clone().unmerge()), ("as_unmerged", b.as_unmerged())] {
            match model::value(&Value::Block(u.clone())) {
                MV::Block(false, mut l) => {
                    l.sort();
                    if l != flat {
                        return Err(format!("{} of the merged block {:?} gave {:?}", how, m, l));
                    }
                }
                x => return Err(format!("{} of the merged block {:?} gave {:?}", how, m, x)),
            }
            if u.is_merged() || u.len() != flat.len() {
                return Err(format!("{} of the merged block {:?} is merged or of another length", how, m));
            }
            same("merging the unmerged block again", &m, see_block(&u.merge()), &exp)?;
        }
    }
    let class = model::hash(&match &exp {
        Ok(m) => format!("{:?}", m),
        Err(c) => c.join("|"),
    });
    obs_with(class, entries.len() > 1, w, || format!("{:?} -> {}", m, if exp.is_ok() { "merged" } else { "conflict" }))
}

fn lab(l: &[&str]) -> Vec<String> {
    l.iter().map(|x| s(x)).collect()
}

/// Kinds of value; the marker tells entries apart.
const KINDS: usize = 23;
fn kind(k: usize, id: i64) -> MV {
    let id = MV::Int(id);
    let b = |l: Vec<(&[&str], MM)>| MV::Block(false, l.into_iter().map(|(l, m)| (lab(l), m)).collect());
    match k {
        0 => id,
        1 => MV::Object(vec![mm(vec![("x", id)])]),
        2 => b(vec![(&["x"], mm(vec![("i", id)]))]),
        3 => b(vec![(&["y"], mm(vec![]))]),
        4 => MV::List(vec![id]),
        5 => MV::Null,
        6 => MV::Str(format!("{:?}", id)),
        7 => MV::Object(vec![mm(vec![])]),
        8 => MV::Object(vec![mm(vec![("x", id.clone()), ("y", id.clone())]), mm(vec![("x", id)])]),
        9 => MV::Object(vec![]),
        10 => b(vec![(&["x", "y"], mm(vec![("i", id)]))]),
        11 => MV::Object(vec![mm(vec![("x", id), ("x", MV::Null)])]),
        12 => MV::List(vec![]),
        13 => MV::Float((0.5f64).to_bits()),
        14 => MV::Bool(true),
        15 => b(vec![(&["x"], mm(vec![])), (&["y"], mm(vec![("i", id)]))]),
        16 => b(vec![(&["z"], mm(vec![])), (&["z"], mm(vec![("i", id)]))]),
        17 => MV::List(vec![MV::Object(vec![mm(vec![("x", MV::Bool(false)), ("x", id)])]), MV::Null]),
        18 => b(vec![(&["w"], mm(vec![("x", MV::Object(vec![])), ("x", b(vec![]))]))]),
        19 => b(vec![(&["x y"], mm(vec![("i", id)]))]),
        20 => b(vec![(&[], mm(vec![]))]),
        21 => b(vec![(&[""], mm(vec![("l", MV::List(vec![MV::Object(vec![mm(vec![("k", id)])])]))]))]),
        _ => b(vec![]),
    }
}

fn flat(name: &str, max: usize, keys: &'static [&'static str], kinds: usize) -> Family {
    Family::new(name, &format!("all maps of up to {} entries with {} names and {} kinds of value", max, keys.len(), kinds), move |ch, w| {
        let n = ch.range(0, max);
        let mut m = MM { merged: false, entries: vec![] };
        for i in 0..n {
            let k = ch.pick(keys);
            m.entries.push((s(k), kind(ch.choose(kinds), i as i64)));
        }
        ch.note(|| format!("{:?}", m));
        judge(&m, n % 3, w)
    })
}

/// A map of at most `budget` entries, at every level together.
fn tree(ch: &mut Chooser, budget: &mut usize, depth: usize) -> MM {
    let mut m = mm(vec![]);
    while *budget > 0 && ch.flag() {
        *budget -= 1;
        let k = *ch.pick(&["a", "b"]);
        let v = match ch.choose(if depth > 0 { 6 } else { 2 }) {
            0 => MV::Int(*budget as i64),
            1 => MV::Object(vec![mm(vec![])]),
            2 => MV::Object(vec![tree(ch, budget, depth - 1)]),
            3 => MV::List(vec![MV::Object(vec![tree(ch, budget, depth - 1)])]),
            4 => MV::Block(false, vec![(lab(&["x"]), tree(ch, budget, depth - 1))]),
            _ => {
                let a = tree(ch, budget, depth - 1);
                let b = tree(ch, budget, depth - 1);
                MV::Block(false, vec![(lab(&["y"]), a), (lab(&["z", "y"]), b)])
            }
        };
        m.entries.push((s(k), v));
    }
    m
}

/// Writes a map for the older front-end, if it can be written: every object is of one map, every
/// block of one body.
pub fn write(m: &MM, out: &mut String) {
    for (k, v) in &m.entries {
        out.push_str(k);
        match v {
            MV::Block(_, b) => {
                for l in &b[0].0 {
                    out.push(' ');
                    out.push_str(&quote(l));
                }
                out.push_str(" {\n");
                write(&b[0].1, out);
                out.push_str("}\n");
            }
            MV::Object(o) => {
                out.push_str(" {\n");
                write(&o[0], out);
                out.push_str("}\n");
            }
            v => {
                out.push_str(" = ");
                write_value(v, out);
                out.push('\n');
            }
        }
    }
}

fn write_value(v: &MV, out: &mut String) {
    match v {
        MV::Null => out.push_str("null"),
        MV::Int(i) => out.push_str(&i.to_string()),
        MV::Float(f) => out.push_str(&format!("{:?}", f64::from_bits(*f))),
        MV::Bool(b) => out.push_str(&b.to_string()),
        MV::Str(t) => out.push_str(&quote(t)),
        MV::List(l) => {
            out.push('[');
            for x in l {
                write_value(x, out);
                out.push(',');
            }
            out.push(']');
        }
        MV::Object(o) => {
            out.push_str("{\n");
            write(&o[0], out);
            out.push('}');
        }
        MV::Block(..) => unreachable!(),
    }
}

/// A text: parsing with merging is parsing followed by merging.
pub fn judge_text(t: &str, w: bool) -> Verdict {
    let plain = fc::value::from_str(t, None);
    let m = match &plain {
        Err(e) => {
            let e = e.to_string();
            return match fc::value::from_str(t, Some(MergeBehaviour::Error)) {
                Err(f) if f.to_string() == e => obs(1, false),
                other => Err(format!("{:?} fails to parse ({}), but with merging gives {:?}", t, e, other)),
            };
        }
        Ok(m) => model::map(m),
    };
    let exp = expected(&m);
    let got = fc::value::from_str(t, Some(MergeBehaviour::Error)).map(|x| model::map(&x)).map_err(|e| error(&e));
    same("from_str with merging", &m, got, &exp)?;
    let got = fc::value::from_slice(t.as_bytes(), Some(MergeBehaviour::default())).map(|x| model::map(&x)).map_err(|e| error(&e));
    same("from_slice with merging", &m, got, &exp)?;
    let got = fc::value::from_reader(t.as_bytes(), Some(MergeBehaviour::Error)).map(|x| model::map(&x)).map_err(|e| error(&e));
    same("from_reader with merging", &m, got, &exp)?;
    let got = plain.unwrap().merge().map(|x| model::map(&x)).map_err(|e| error(&e));
    same("merge of what from_str gives", &m, got, &exp)?;
    let class = model::hash(&match &exp {
        Ok(m) => format!("{:?}", m),
        Err(c) => c.join("|"),
    });
    obs_with(class, m.entries.len() > 1, w, || format!("{:?} -> {}", t, if exp.is_ok() { "merged" } else { "conflict" }))
}

const LINES: &[&str] = &[
    "a = 1\n", "b = \"s\"\n", "a {\n}\n", "a {\n x = 1\n}\n", "a \"x\" {\n}\n", "a \"y\" {\n x = 1\n}\n", "a \"x\" \"y\" {\n x = [1]\n}\n", "a \"x y\" {\n}\n",
    "a = []\n", "a = { y = 2 }\n", "\"a\" = null\n", "\"a\" {\n}\n", "a \"x\" {\n x = 1\n x = 2\n}\n", "a = [{ x = 1, x {\n } }]\n", "b \"x\" {\n c {\n }\n c {\n d = true\n }\n}\n",
    "b {\n c \"x\" {\n }\n c \"x\" {\n }\n}\n", "a = { x = { y = 1 }, x = { y = 2 } }\n", "a \"\" {\n}\n",
];

fn inner_int(m: &MM) -> String {
    match &m.entries[0].1 {
        MV::Int(i) => i.to_string(),
        _ => String::new(),
    }
}

fn c19(t: bool) -> Vec<Family> {
    let mut v = vec![
        flat("three names", if t { 4 } else { 3 }, &["a", "b", "c"], KINDS),
        flat("two names", if t { 5 } else { 4 }, &["a", "b"], 12),
        flat("one name", if t { 6 } else { 5 }, &["a"], if t { 12 } else { 10 }),
        flat("short chains", if t { 9 } else { 7 }, &["a"], 4),
    ];
    let budget = if t { 5 } else { 4 };
    v.push(Family::new("nested", &format!("all maps of up to {} entries at all levels together, nested up to 3 deep in objects, lists and blocks, with 2 names", budget), move |ch, w| {
        let mut b = budget;
        let m = tree(ch, &mut b, 3);
        ch.note(|| format!("{:?}", m));
        judge(&m, budget % 3, w)
    }));
    let lines = if t { 5 } else { 4 };
    v.push(Family::new("texts", &format!("all texts of up to {} of {} elements", lines, LINES.len()), move |ch, w| {
        let n = ch.range(0, lines);
        let mut text = String::new();
        for _ in 0..n {
            text.push_str(ch.pick(LINES));
        }
        ch.note(|| text.clone());
        judge_text(&text, w)
    }));
    v.push(Family::new("texts of names", &format!("two entries, maps or blocks, whose names or labels are {}, from the constructors and from text", crate::gen::alike_bound(65537)), move |ch, w| {
        let what = ch.choose(4);
        let (x, y) = crate::gen::alike(ch, false, 65537);
        let (x, y) = (x.as_str(), y.as_str());
        let one = |t: &str, i: i64| match what {
            0 => (s(t), MV::Int(i)),
            1 => (s(t), MV::Object(vec![mm(vec![("x", MV::Int(i))])])),
            2 => (s("k"), MV::Block(false, vec![(vec![s(t)], mm(vec![("x", MV::Int(i))]))])),
            _ => (s("k"), MV::Block(false, vec![(vec![s("l"), s(t)], mm(vec![("x", MV::Int(i))]))])),
        };
        let mut m = MM { merged: false, entries: vec![one(x, 1), one(y, 2)] };
        if what > 1 && ch.flag() {
            // the same text divided another way
            m.entries.push((s("k"), MV::Block(false, vec![(x.split(' ').map(s).collect(), mm(vec![("x", MV::Int(3))]))])));
        }
        ch.note(|| format!("{:?}", m));
        let mut text = String::new();
        for (k, v) in &m.entries {
            text.push_str(&quote(k));
            match v {
                MV::Block(_, b) => {
                    text = text[..text.len() - quote(k).len()].to_string() + k;
                    for l in &b[0].0 {
                        text.push_str(&format!(" {}", quote(l)));
                    }
                    text.push_str(&format!(" {{\n x = {}\n}}\n", inner_int(&b[0].1)));
                }
                MV::Object(o) => text.push_str(&format!(" = {{\n x = {}\n}}\n", inner_int(&o[0]))),
                MV::Int(i) => text.push_str(&format!(" = {}\n", i)),
                _ => {}
            }
        }
        if fc::value::from_str(&text, None).ok().map(|p| model::map(&p)) != Some(m.clone()) {
            return Err(format!("{:?} was not read as {:?}", text, m));
        }
        judge_text(&text, false)?;
        judge(&m, what, w)
    }));
    let words = if t { 7 } else { 6 };
    v.push(Family::new("words", &format!("all words of up to {} of 12 tokens", words), move |ch, w| {
        let text = crate::gen::word(ch, &["a", " = 1", "\n", " {\n", "}", " \"x\"", "b", " = [", "]", " = {", ",", "a = 1\n"], words);
        ch.note(|| text.clone());
        judge_text(&text, w)
    }));
    v.push(Family::new("growth", &format!("10 kinds of map of up to {} entries, with and without a conflict in one place, from the constructors and from text", if t { 4097 } else { 1025 }), move |ch, w| {
        let sizes: Vec<usize> = ramp::sizes(t).into_iter().filter(|n| *n <= 4097).collect();
        let n = *ch.pick(&sizes);
        let k = ch.choose(10);
        let e = |i: usize| -> (String, MV) {
            let id = MV::Int(i as i64);
            match k {
                0 => (format!("k{}", i), id),
                1 => (s("k"), MV::Object(vec![mm(vec![("x", id)])])),
                2 => (s("k"), MV::Block(false, vec![(vec![format!("l{}", i)], mm(vec![("x", id)]))])),
                3 => (format!("k{}", i % 7), MV::Block(false, vec![(vec![s("l"), i.to_string()], mm(vec![("x", id)]))])),
                4 => (format!("k{}", i % 7), MV::Object(vec![mm(vec![("x", id), ("y", MV::List(vec![MV::Null]))])])),
                5 => (s("k"), MV::Block(false, vec![((0..=i % 40).map(|j| format!("{}", j + i)).collect(), mm(vec![]))])),
                6 => (format!("k{}", i), MV::List(vec![MV::Object(vec![mm(vec![("x", id)])])])),
                7 => (format!("k{}", i), MV::Object(vec![mm(vec![("x", id)])])),
                8 => (format!("k{}", i), MV::Block(false, vec![(vec![s("l")], mm(vec![("x", id)]))])),
                _ => (s("k"), MV::Object(vec![mm(vec![])])),
            }
        };
        let mut m = MM { merged: false, entries: (0..n).map(e).collect() };
        // kind 5 repeats labels by itself only when i differs by a multiple of everything: never
        let places = [n, 0, n / 2, n.saturating_sub(1)];
        let p = ch.choose(4);
        if p > 0 && n > 1 {
            // something that conflicts with the entry next to it
            let q = if places[p] == 0 { 1 } else { places[p] - 1 };
            let (key, old) = m.entries[q].clone();
            let v = match (ch.choose(2), old) {
                (0, _) => MV::Bool(false),
                (_, MV::Block(_, b)) => MV::Block(false, b),
                (_, _) => MV::Block(false, vec![(vec![s("!")], mm(vec![]))]),
            };
            m.entries.insert(places[p].min(n), (key, v));
        } else if p > 0 {
            return obs(0, false);
        }
        ch.note(|| clip(&format!("{:?}", m)));
        if n <= 300 || k != 9 {
            let mut t = String::new();
            write(&m, &mut t);
            let back = fc::value::from_str(&t, None).map(|x| model::map(&x));
            match back {
                Ok(b) if b == m => {}
                other => return Err(format!("{} was read as {}", clip(&t), clip(&format!("{:?}", other)))),
            }
            judge_text(&t, false)?;
        }
        judge(&m, n % 3, w)
    }));
    let some = if t { 4 } else { 3 };
    v.push(Family::new("blocks", &format!("all blocks of up to {} entries of 8 lists of labels and 6 bodies, merged and unmerged on their own", some), move |ch, w| {
        let n = ch.range(0, some);
        let mut l = vec![];
        for _ in 0..n {
            let labels = lab(*ch.pick::<&[&str]>(&[&["x"], &[], &["y"], &["x", "y"], &["y", "x"], &["x y"], &[""], &["x", "x", "z"]]));
            let body = match ch.choose(6) {
                0 => mm(vec![("a", MV::Int(l.len() as i64))]),
                1 => mm(vec![]),
                2 => mm(vec![("a", MV::Null), ("a", MV::Null)]),
                3 => mm(vec![("b", MV::Object(vec![mm(vec![])])), ("b", MV::Object(vec![mm(vec![("i", MV::Int(1))])]))]),
                4 => mm(vec![("b", MV::Block(false, vec![(lab(&["x"]), mm(vec![]))])), ("a", MV::Bool(true))]),
                _ => mm(vec![("z", MV::Int(1)), ("a", MV::Int(2)), ("m", MV::Int(3))]),
            };
            l.push((labels, body));
        }
        ch.note(|| format!("{:?}", l));
        judge_block(&l, n % 3, w)
    }));
    v.push(Family::new("large blocks", &format!("blocks of up to {} entries with 3 kinds of labels on their own, with and without two alike", if t { 4097 } else { 1025 }), move |ch, w| {
        let sizes: Vec<usize> = ramp::sizes(t).into_iter().filter(|n| *n <= 4097).collect();
        let n = *ch.pick(&sizes);
        let k = ch.choose(3);
        let mut l: Vec<(Vec<String>, MM)> = (0..n)
            .map(|i| {
                let labels = match k {
                    0 => vec![format!("l{}", i)],
                    1 => vec![format!("l{}", i % 7), i.to_string()],
                    _ => (0..=i % 40).map(|j| format!("{}", j + i)).collect(),
                };
                (labels, mm(vec![("a", MV::Int(i as i64))]))
            })
            .collect();
        match ch.choose(4) {
            _ if n < 2 => {}
            0 => {}
            1 => l[n - 1].0 = l[0].0.clone(),
            2 => l[n / 2].0 = l[n / 2 - 1].0.clone(),
            _ => l[1].0 = l[n - 1].0.clone(),
        }
        ch.note(|| clip(&format!("{:?}", l)));
        judge_block(&l, n % 3, w)
    }));
    v.push(Family::new("depth", "maps nested up to 150 deep in 4 ways, with and without a conflict at the bottom", move |ch, w| {
        let n = *ch.pick(&ramp::depths());
        let how = ch.choose(4);
        let mut m = match ch.choose(4) {
            0 => mm(vec![("x", MV::Int(1))]),
            1 => mm(vec![("x", MV::Int(1)), ("x", MV::Int(1))]),
            2 => mm(vec![("x", MV::Object(vec![mm(vec![])])), ("x", MV::Object(vec![mm(vec![("y", MV::Null)])]))]),
            _ => mm(vec![("x", MV::Object(vec![mm(vec![])])), ("x", MV::Block(false, vec![(lab(&["l"]), mm(vec![]))]))]),
        };
        for i in 0..n {
            m = match (how, i % 3) {
                (0, _) | (3, 0) => mm(vec![("a", MV::Object(vec![m])), ("b", MV::Null)]),
                (1, _) | (3, 1) => mm(vec![("a", MV::List(vec![MV::Object(vec![m])]))]),
                _ => mm(vec![("a", MV::Block(false, vec![(lab(&["l"]), m)])), ("a", MV::Block(false, vec![(lab(&["k"]), mm(vec![]))]))]),
            };
        }
        ch.note(|| clip(&format!("{:?}", m)));
        let mut t = String::new();
        write(&m, &mut t);
        let back = fc::value::from_str(&t, None).map(|x| model::map(&x));
        match back {
            Ok(b) if b == m => {}
            other => return Err(format!("{} was read as {}", clip(&t), clip(&format!("{:?}", other)))),
        }
        judge_text(&t, false)?;
        judge(&m, n % 3, w)
    }));
    v
}

pub const C19: Prop = Prop {
    id: "C19",
    rule: "an execution builds or parses a map, merges it in every way the library offers, and compares the result or the error with a merge of the model; non-trivial: the map has at least two entries",
    assumptions: &["where a map has several conflicts, any of them may be the one reported"],
    families: c19,
};
