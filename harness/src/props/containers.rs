//! C20: key-value containers look up, count and iterate what they hold.
use super::keys::{key, Key};
use crate::explore::*;
use crate::{hints, ramp, Prop};
use fc::value::{Block, MapValues, Value};
use fc::{KeyValuePairs, OneOrMany};
use ferrous_chloride as fc;
use std::collections::BTreeMap;
use std::fmt::Debug;

type Pairs = KeyValuePairs<String, usize>;

/// Sizes of all sorts.
fn both(t: bool) -> Vec<usize> {
    let mut v = ramp::sizes(t);
    v.extend(ramp::large(t));
    v
}

fn fail<R, T: Debug>(what: &str, case: &dyn Debug, got: T) -> Result<R, String> {
    Err(format!("{} of {} gave {}", what, crate::model::clip(&format!("{:?}", case)), crate::model::clip(&format!("{:?}", got))))
}

/// Runs an iterator in every way, looking at what it says remains at every step. `expected` is in
/// order unless `sorted`.
fn steps<I, T, F>(what: &str, case: &dyn Debug, make: F, expected: &[T], sorted: bool) -> Result<(), String>
where
    I: Iterator<Item = T>,
    T: Ord + Clone + Debug,
    F: Fn() -> I,
{
    let n = expected.len();
    let mut all = vec![];
    let mut it = make();
    for i in 0..=n {
        let h = it.size_hint();
        if h != (n - i, Some(n - i)) {
            return fail(&format!("size_hint of {} after {} of {}", what, i, n), case, h);
        }
        match it.next() {
            Some(x) if i < n => all.push(x),
            None if i == n => {}
            x => return fail(&format!("{} after {} of {}", what, i, n), case, x),
        }
    }
    if it.next().is_some() || it.size_hint() != (0, Some(0)) {
        return fail(&format!("{} after its end", what), case, it.size_hint());
    }
    let order = all.clone();
    if sorted {
        all.sort();
    }
    if all != expected {
        return fail(what, case, all);
    }
    let mut e = expected.to_vec();
    if sorted {
        e.sort();
    }
    // the provided methods, from every point
    let mut rest: Vec<usize> = (0..=n.min(8)).collect();
    rest.extend([n / 2, n.saturating_sub(1), n]);
    for i in rest {
        let at = |mut it: I| {
            for _ in 0..i {
                it.next();
            }
            it
        };
        let c = at(make()).count();
        if c != n - i.min(n) {
            return fail(&format!("count of {} from {}", what, i), case, c);
        }
        let l = at(make()).last();
        if l.as_ref() != order.last().filter(|_| i < n) {
            return fail(&format!("last of {} from {}", what, i), case, l);
        }
        let x: Vec<T> = at(make()).collect();
        if x[..] != order[i.min(n)..] {
            return fail(&format!("collect of {} from {}", what, i), case, x);
        }
        let f = at(make()).fold(vec![], |mut v, x| {
            v.push(x);
            v
        });
        if f[..] != order[i.min(n)..] {
            return fail(&format!("fold of {} from {}", what, i), case, f);
        }
        for k in [0, 1, 2, 7, n] {
            let mut it = at(make());
            let x = it.nth(k);
            if x.as_ref() != order.get(i + k) {
                return fail(&format!("nth({}) of {} from {}", k, what, i), case, x);
            }
            let left = n.saturating_sub(i + k + 1);
            if it.size_hint() != (left, Some(left)) {
                return fail(&format!("size_hint of {} from {} after nth({})", what, i, k), case, it.size_hint());
            }
            let x = it.next();
            if x.as_ref() != order.get(i + k + 1) {
                return fail(&format!("{} from {} after nth({})", what, i, k), case, x);
            }
            let t: Vec<T> = at(make()).skip(k).take(2).collect();
            if t[..] != order[(i + k).min(n)..(i + k + 2).min(n)] {
                return fail(&format!("skip({}) of {} from {}", k, what, i), case, t);
            }
            let t: Vec<T> = at(make()).step_by(k + 1).collect();
            let o: Vec<T> = order[i.min(n)..].iter().step_by(k + 1).cloned().collect();
            if t != o {
                return fail(&format!("step_by({}) of {} from {}", k + 1, what, i), case, t);
            }
        }
    }
    Ok(())
}

fn exact<I: ExactSizeIterator>(what: &str, case: &dyn Debug, mut it: I, n: usize) -> Result<(), String> {
    for i in 0..=n {
        if it.len() != n - i {
            return fail(&format!("len of {} after {} of {}", what, i, n), case, it.len());
        }
        it.next();
    }
    Ok(())
}

/// Compares a container with the list of what was put in.
fn check(p: &Pairs, model: &[(String, usize)], merged: bool, ask: &[&str]) -> Result<(), String> {
    let case: &dyn Debug = &(merged, model);
    let n = model.len();
    if p.len() != n || p.is_empty() != (n == 0) {
        return fail("len", case, (p.len(), p.is_empty()));
    }
    let mut pairs: Vec<(&String, &usize)> = model.iter().map(|(k, v)| (k, v)).collect();
    let mut keys: Vec<&String> = model.iter().map(|x| &x.0).collect();
    let mut values: Vec<&usize> = model.iter().map(|x| &x.1).collect();
    let mut owned = model.to_vec();
    if merged {
        pairs.sort();
        keys.sort();
        values.sort();
        owned.sort();
    }
    steps("iter", case, || p.iter(), &pairs, merged)?;
    steps("into_iter of a reference", case, || p.into_iter(), &pairs, merged)?;
    steps("keys", case, || p.keys(), &keys, merged)?;
    steps("values", case, || p.values(), &values, merged)?;
    // a clone of a hash map need not keep its order: only in order when not merged
    if merged {
        let mut x: Vec<_> = p.clone().into_iter().collect();
        x.sort();
        if x != owned {
            return fail("into_iter", case, x);
        }
    } else {
        steps("into_iter", case, || p.clone().into_iter(), &owned, merged)?;
    }
    exact("iter", case, p.iter(), n)?;
    exact("into_iter of a reference", case, p.into_iter(), n)?;
    exact("into_iter", case, p.clone().into_iter(), n)?;
    let h: Vec<_> = {
        let mut it = p.clone().into_iter();
        (0..=n).map(|_| (it.size_hint(), it.next().is_some()).0).collect()
    };
    if h.iter().enumerate().any(|(i, h)| *h != (n - i, Some(n - i))) {
        return fail("size_hint of into_iter", case, h);
    }
    for k in ask {
        let found: Vec<&usize> = model.iter().filter(|x| x.0 == *k).map(|x| &x.1).collect();
        let g = p.get_single(*k);
        if g != found.first().copied() {
            return fail(&format!("get_single({:?})", k), case, g);
        }
        let owned_key = k.to_string();
        if p.get_single(&owned_key) != g {
            return fail(&format!("get_single({:?}) by the owned key", k), case, p.get_single(&owned_key));
        }
        let g = p.get(*k);
        let ok = match (&g, merged) {
            (None, _) => found.is_empty(),
            (Some(OneOrMany::One(v)), true) => found == [*v],
            (Some(OneOrMany::Many(v)), false) => !v.is_empty() && *v == found,
            _ => false,
        };
        if !ok || p.get(&owned_key) != g {
            return fail(&format!("get({:?})", k), case, g);
        }
        let i = guard_index(p, k);
        if i.as_ref().ok() != found.first().copied() {
            return fail(&format!("indexing by {:?}", k), case, i);
        }
    }
    let m = guard(|| p.clone().unwrap_merged());
    let u = guard(|| p.clone().unwrap_unmerged());
    match (m, u, merged) {
        (Ok(m), Err(_), true) => {
            let mut v: Vec<_> = m.into_iter().collect();
            v.sort();
            if v != owned {
                return fail("unwrap_merged", case, v);
            }
        }
        (Err(_), Ok(u), false) => {
            if u != owned {
                return fail("unwrap_unmerged", case, u);
            }
        }
        (m, u, _) => return fail("unwrap_merged and unwrap_unmerged", case, (m.is_ok(), u.is_ok())),
    }
    if *p != p.clone() {
        return fail("equality with its clone", case, p);
    }
    Ok(())
}

fn guard_index(p: &Pairs, k: &str) -> Result<usize, String> {
    guard_call(|| p[k])
}

/// What is held after putting in an entry.
fn put(model: &mut Vec<(String, usize)>, merged: bool, k: &str, v: usize) {
    if merged {
        if let Some(x) = model.iter_mut().find(|x| x.0 == k) {
            x.1 = v;
            return;
        }
    }
    model.push((k.to_string(), v));
}

fn make(entries: &[(String, usize)], merged: bool) -> Pairs {
    if merged {
        KeyValuePairs::Merged(entries.iter().cloned().collect())
    } else {
        KeyValuePairs::Unmerged(entries.to_vec())
    }
}

const KEYS: &[&str] = &["a", "b", ""];

fn histories(t: bool) -> Vec<Family> {
    let (first, more) = if t { (8, 5) } else { (6, 4) };
    vec![
        Family::new("histories", &format!("all containers of up to {} entries over 3 keys, merged or not, extended once by up to {}", first, more), move |ch, w| {
            let merged = ch.flag();
            let n = ch.range(0, first);
            let mut model = vec![];
            let mut entries = vec![];
            for i in 0..n {
                let k = ch.pick(KEYS);
                put(&mut model, merged, k, i);
                entries.push((k.to_string(), i));
            }
            let mut p = make(&entries, merged);
            let m = ch.range(0, more);
            if m == 0 {
                ch.note(|| format!("{} {:?}", merged, entries));
                check(&p, &model, merged, &["a", "b", "", "c", "A"])?;
            } else {
                let mut add = vec![];
                for i in 0..m {
                    let k = ch.pick(KEYS);
                    put(&mut model, merged, k, 100 + i);
                    add.push((k.to_string(), 100 + i));
                }
                ch.note(|| format!("{} {:?} extended by {:?}", merged, entries, add));
                p.extend(add.iter().cloned());
                check(&p, &model, merged, &["a", "b", "", "c"])?;
                // with another container, and one by one
                for other in [true, false] {
                    let mut q = make(&entries, merged);
                    if other {
                        q.extend(make(&add, false));
                    } else {
                        add.iter().for_each(|x| q.extend(std::iter::once(x.clone())));
                    }
                    if q != p {
                        return fail("extending in another way", &entries, q);
                    }
                }
            }
            obs_with(crate::model::hash(&(merged, &model)), n > 1, w, || format!("merged {} {:?}", merged, model))
        }),
        Family::new("operations", &format!("all sequences of up to {} extensions by up to 2 entries over 2 keys, checked after each", if t { 6 } else { 5 }), move |ch, w| {
            let merged = ch.flag();
            let mut model = vec![];
            let mut p = make(&[], merged);
            let n = ch.range(0, if t { 6 } else { 5 });
            let mut id = 0;
            for _ in 0..n {
                let m = ch.choose(3);
                let mut add = vec![];
                for _ in 0..m {
                    let k = ch.pick(&KEYS[..2]);
                    id += 1;
                    put(&mut model, merged, k, id);
                    add.push((k.to_string(), id));
                }
                p.extend(add);
                let c: BTreeMap<&str, Vec<usize>> = model.iter().fold(BTreeMap::new(), |mut m, (k, v)| {
                    m.entry(k.as_str()).or_default().push(*v);
                    m
                });
                for k in KEYS {
                    let g: Vec<usize> = p.get(*k).map(|x| x.iter().map(|v| **v).collect()).unwrap_or_default();
                    if g != c.get(k).cloned().unwrap_or_default() {
                        return fail(&format!("get({:?})", k), &model, g);
                    }
                }
                if p.len() != model.len() {
                    return fail("len", &model, p.len());
                }
            }
            check(&p, &model, merged, &["a", "b", ""])?;
            obs_with(crate::model::hash(&(merged, &model)), model.len() > 1, w, || format!("merged {} {:?}", merged, model))
        }),
        Family::new("iterators", &format!("{} sizes, filled and extended from iterators of {} kinds of size hint", hints::SIZES.len(), hints::HINTS), |ch, w| {
            let n = *ch.pick(hints::SIZES);
            let merged = ch.flag();
            let d = *ch.pick(&[1, 3, usize::MAX]);
            let h = ch.choose(hints::HINTS);
            let at = *ch.pick(&[0, n / 2, n]);
            ch.note(|| format!("{} entries, merged {}, {} keys, hint {}, {} at first", n, merged, d, h, at));
            let mut model = vec![];
            let entries: Vec<(String, usize)> = (0..n).map(|i| (format!("k{}", i % d), i)).collect();
            entries.iter().for_each(|(k, i)| put(&mut model, merged, k, *i));
            let mut p = make(&entries[..at], merged);
            p.extend(hints::hinted(entries[at..].to_vec(), h));
            check(&p, &model, merged, &["k0", "k1", "k2", "k", "k00"])?;
            // the same of the library's own keys and values
            let vals: Vec<(Key<'static>, Value<'static>)> = entries.iter().map(|(k, i)| (if i % 2 == 0 { Key::new_string_owned(k.clone()) } else { Key::new_identifier_owned(k.clone()) }, Value::from(*i as i64))).collect();
            let m = hints::hinted(vals.clone(), h).collect::<MapValues>();
            if m != MapValues::Unmerged(vals.clone()) || MapValues::new_unmerged(hints::hinted(vals.clone(), h)) != m {
                return fail("collecting", &entries, m);
            }
            if d == usize::MAX {
                match MapValues::new_merged(hints::hinted(vals.clone(), h)) {
                    Ok(MapValues::Merged(x)) if x.len() == n && vals.iter().all(|(k, v)| x.get(&**k) == Some(v)) => {}
                    x => return fail("new_merged", &entries, x.is_ok()),
                }
            }
            let blocks: Vec<(Vec<String>, MapValues<'static>)> = entries.iter().map(|(k, i)| (vec![k.clone()], MapValues::new_unmerged(vec![(key("id", 0), Value::from(*i as i64))]))).collect();
            let b = hints::hinted(blocks.clone(), h).collect::<Block>();
            if b != Block::Unmerged(blocks.clone()) || Block::new_unmerged(hints::hinted(blocks, h)) != b {
                return fail("collecting blocks", &entries, b);
            }
            let list: Vec<Value<'static>> = vals.into_iter().map(|x| x.1).collect();
            for v in [hints::hinted(list.clone(), h).collect::<Value>(), Value::new_list(hints::hinted(list.clone(), h))] {
                if v != Value::List(list.clone()) {
                    return fail("collecting values", &entries, v);
                }
            }
            obs_with(crate::model::hash(&(n, merged, d, h, at)), n > 1, w, || format!("{} {} {} {} {}", n, merged, d, h, at))
        }),
        Family::new("growth", &format!("containers of up to {} entries over 1, 3 or all different keys", if t { 200000 } else { 65537 }), move |ch, w| {
            let n = *ch.pick(&both(t));
            let merged = ch.flag();
            let d = *ch.pick(&[1, 3, usize::MAX]);
            let extend = ch.flag();
            let mut model = vec![];
            let mut at: BTreeMap<String, usize> = BTreeMap::new();
            let mut p = make(&[], merged);
            let mut entries = vec![];
            for i in 0..n {
                let k = format!("k{}", i % d);
                if let (true, Some(j)) = (merged, at.get(&k)) {
                    let j: &mut (String, usize) = &mut model[*j];
                    j.1 = i;
                } else {
                    at.insert(k.clone(), model.len());
                    model.push((k.clone(), i));
                }
                entries.push((k, i));
            }
            if extend {
                p.extend(entries);
            } else {
                p = make(&entries, merged);
            }
            ch.note(|| format!("{} entries, merged {}, {} keys", n, merged, d));
            let last = format!("k{}", n.saturating_sub(1));
            check(&p, &model, merged, &["k0", "k1", "k2", &last, "k", "k00"])?;
            obs_with(crate::model::hash(&(n, merged, d)), n > 1, w, || format!("{} entries, merged {}, {} keys", n, merged, d))
        }),
    ]
}

/// Keys that are easily mistaken for one another.
fn alike() -> Family {
    use crate::gen;
    Family::new("alike", &format!("{}, as the keys of containers of two and three entries, merged or not, of blocks, and of parsed maps", gen::alike_bound(65537)), |ch, w| {
        let (x, y) = gen::alike(ch, false, 65537);
        let kind = ch.choose(4);
        let merged = kind % 2 == 1;
        let (x, y) = (x.as_str(), y.as_str());
        ch.note(|| crate::model::clip(&format!("{} {:?} {:?}", kind, x, y)));
        let entries: Vec<(String, usize)> = [x, y, x].iter().enumerate().map(|(i, k)| (k.to_string(), i)).collect();
        let mut model = vec![];
        entries.iter().for_each(|(k, i)| put(&mut model, merged, k, *i));
        let asks = [x, y, "a", "", "z"];
        if kind < 2 {
            let mut p = make(&entries[..2], merged);
            p.extend(entries[2..].iter().cloned());
            check(&p, &model, merged, &asks)?;
            check(&make(&entries, merged), &model, merged, &asks)?;
        } else {
            let list = entries.iter().map(|(k, i)| (vec![k.clone(), "l".to_string()], MapValues::new_unmerged(vec![(Key::new_identifier("i"), Value::from(*i as i64))])));
            let b: Block = if merged { KeyValuePairs::Merged(list.collect()) } else { Block::new_unmerged(list) };
            let q = b.borrow_keys();
            let id = |m: &MapValues| m.get_single("i").and_then(|v| v.integer().ok()).unwrap_or(-1) as usize;
            for k in asks.iter() {
                let found: Vec<usize> = model.iter().filter(|e| e.0 == *k).map(|e| e.1).collect();
                let got = q.get::<[&str]>(&[*k, "l"]).map(|x| x.iter().map(|m| id(m)).collect::<Vec<_>>()).unwrap_or_default();
                let own = b.get(&vec![k.to_string(), "l".to_string()]).map(|x| x.iter().map(|m| id(m)).collect::<Vec<_>>()).unwrap_or_default();
                if got != found || own != found || q.len() != model.len() {
                    return fail("looking up in a block", &crate::model::clip(&format!("{:?} in {:?}", k, model)), (got, own));
                }
            }
            if let (false, false) = (merged, [x, y].iter().any(|k| k.contains(&['\t', '\u{feff}'][..]))) {
                let text = format!("\"{}\" = 0\n\"{}\" = 1\n\"{}\" = 2\n", x, y, x);
                let m = fc::value::from_str(&text, None).map_err(|e| format!("{:?}: {}", crate::model::clip(&text), e))?;
                for k in asks.iter() {
                    let found: Vec<usize> = model.iter().filter(|e| e.0 == *k).map(|e| e.1).collect();
                    let got = m.get(*k).map(|x| x.iter().map(|v| v.integer().unwrap_or(-1) as usize).collect::<Vec<_>>()).unwrap_or_default();
                    let one = m.get_single(*k).and_then(|v| v.integer().ok()).map(|i| i as usize);
                    if got != found || one != found.first().copied() {
                        return fail("looking up in a parsed map", &crate::model::clip(&format!("{:?} in {:?}", k, model)), (got, one));
                    }
                }
            }
        }
        obs_with(crate::model::hash(&(kind, x == y, x.len(), y.len())), true, w, || crate::model::clip(&format!("{} {:?} {:?}", kind, x, y)))
    })
}

fn one_or_many(x: &OneOrMany<usize>, model: &[usize], one: bool) -> Result<(), String> {
    let case: &dyn Debug = x;
    if x.len() != model.len() || x.is_empty() != model.is_empty() || x.is_one() != one || x.is_many() == one {
        return fail("len, is_one, is_many", case, (x.len(), x.is_empty(), x.is_one(), x.is_many()));
    }
    let refs: Vec<&usize> = model.iter().collect();
    steps("iter", case, || x.iter(), &refs, false)?;
    steps("into_iter of a reference", case, || x.into_iter(), &refs, false)?;
    steps("into_iter", case, || x.clone().into_iter(), model, false)?;
    exact("iter", case, x.iter(), model.len())?;
    exact("into_iter of a reference", case, x.into_iter(), model.len())?;
    exact("into_iter", case, x.clone().into_iter(), model.len())?;
    let (o, m) = (guard(|| x.clone().unwrap_one()), guard(|| x.clone().unwrap_many()));
    match (o, m, one) {
        (Ok(o), Err(_), true) if [o] == model => {}
        (Err(_), Ok(m), false) if m == model => {}
        (o, m, _) => return fail("unwrap_one and unwrap_many", case, (o, m)),
    }
    if *x != x.clone() {
        return fail("equality with its clone", case, x);
    }
    Ok(())
}

fn c20(t: bool) -> Vec<Family> {
    let mut v = histories(t);
    let max = if t { 7 } else { 6 };
    v.push(Family::new("one or many", &format!("one value, and all lists of up to {} of 3 values, and of up to {} different ones", max, if t { 200000 } else { 65537 }), move |ch, w| {
        let (x, model) = match ch.choose(3) {
            0 => {
                let v = ch.choose(3);
                (OneOrMany::One(v), vec![v])
            }
            1 => {
                let n = ch.range(0, max);
                let m: Vec<usize> = (0..n).map(|_| ch.choose(3)).collect();
                (OneOrMany::Many(m.clone()), m)
            }
            _ => {
                let n = *ch.pick(&both(t));
                let m: Vec<usize> = (0..n).collect();
                (OneOrMany::Many(m.clone()), m)
            }
        };
        let one = matches!(x, OneOrMany::One(_));
        one_or_many(&x, &model, one)?;
        // one value and a list of it are different things
        if x == (if one { OneOrMany::Many(model.clone()) } else { OneOrMany::One(model.first().copied().unwrap_or(0)) }) {
            return fail("equality with the other form", &x, true);
        }
        obs_with(crate::model::hash(&(one, &model)), model.len() > 1, w, || crate::model::clip(&format!("{:?}", x)))
    }));
    v.push(alike());
    // the containers as the parser fills them
    let n = if t { 5 } else { 4 };
    v.push(Family::new("block keys", &format!("all labelled blocks of up to {} bodies over 8 lists of labels, merged or not, asked by borrowed labels", n), move |ch, w| {
        const L: &[&[&str]] = &[&[], &[""], &["a"], &["b"], &["a", "b"], &["b", "a"], &["a b"], &["a", "b", "a"]];
        let merged = ch.flag();
        let k = ch.range(0, n);
        let mut model: Vec<(&[&str], i64)> = vec![];
        let mut b = if merged { KeyValuePairs::Merged(Default::default()) } else { Block::new_unmerged(Vec::<(Vec<&str>, MapValues)>::new()) };
        for i in 0..k {
            let l = *ch.pick(L);
            let body = MapValues::new_unmerged(vec![(Key::new_identifier("i"), Value::from(i as i64))]);
            b.extend(std::iter::once((l.iter().map(|x| x.to_string()).collect::<Vec<_>>(), body)));
            match model.iter_mut().find(|x| merged && x.0 == l) {
                Some(x) => x.1 = i as i64,
                None => model.push((l, i as i64)),
            }
        }
        ch.note(|| format!("merged {} {:?}", merged, model));
        let id = |m: &MapValues| m.get_single("i").and_then(|v| v.integer().ok()).unwrap_or(-1);
        let q = b.borrow_keys();
        if q.len() != model.len() || b.len() != model.len() || matches!(q, KeyValuePairs::Merged(_)) != merged {
            return fail("borrow_keys", &model, q.len());
        }
        for l in L.iter().chain(&[&["c"] as &[&str], &["a", ""], &["a", "b", "a", "b"]]) {
            let found: Vec<i64> = model.iter().filter(|x| x.0 == *l).map(|x| x.1).collect();
            let owned: Vec<String> = l.iter().map(|x| x.to_string()).collect();
            let got = [
                q.get::<[&str]>(l).map(|x| x.iter().map(|m| id(m)).collect::<Vec<_>>()).unwrap_or_default(),
                b.get(&owned).map(|x| x.iter().map(|m| id(m)).collect::<Vec<_>>()).unwrap_or_default(),
                b.get::<[String]>(&owned).map(|x| x.into_iter().map(id).collect::<Vec<_>>()).unwrap_or_default(),
            ];
            if got.iter().any(|g| *g != found) {
                return fail(&format!("looking up {:?}", l), &model, got);
            }
            let got = [q.get_single::<[&str]>(l).map(|m| id(m)), b.get_single(&owned).map(id)];
            if got.iter().any(|g| *g != found.first().copied()) {
                return fail(&format!("looking up the first {:?}", l), &model, got);
            }
        }
        let mut seen: Vec<(Vec<String>, i64)> = b.iter().map(|(l, m)| (l.clone(), id(m))).collect();
        let mut exp: Vec<(Vec<String>, i64)> = model.iter().map(|(l, i)| (l.iter().map(|x| x.to_string()).collect(), *i)).collect();
        let mut borrowed: Vec<(Vec<String>, i64)> = q.iter().map(|(l, m)| (l.iter().map(|x| x.to_string()).collect(), id(m))).collect();
        if merged {
            seen.sort();
            exp.sort();
            borrowed.sort();
        }
        if seen != exp || borrowed != exp {
            return fail("iter", &model, (seen, borrowed));
        }
        obs_with(crate::model::hash(&(merged, format!("{:?}", exp))), k > 1, w, || format!("merged {} {:?}", merged, model))
    }));
    let n = if t { 5 } else { 4 };
    v.push(Family::new("parsed maps", &format!("all texts of up to {} entries over 3 names, bare or quoted, asked for each name and indexed", n), move |ch, w| {
        let k = ch.range(0, n);
        let mut text = String::new();
        let mut model: Vec<(&str, i64)> = vec![];
        for i in 0..k {
            let name = *ch.pick(&["a", "b", "é"]);
            if ch.flag() {
                text.push_str(&format!("\"{}\" = {}\n", name, i));
            } else {
                text.push_str(&format!("{} = {}\n", name, i));
            }
            model.push((name, i as i64));
        }
        ch.note(|| text.clone());
        let m = fc::value::from_str(&text, None).map_err(|e| format!("{:?}: {}", text, e))?;
        let got: Vec<(String, i64)> = m.iter().map(|(k, v)| (k.to_string(), v.integer().unwrap_or(-1))).collect();
        let exp: Vec<(String, i64)> = model.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        if got != exp {
            return fail("the entries", &text, got);
        }
        for name in ["a", "b", "é", "c"] {
            let found: Vec<i64> = model.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
            let many = m.get(name).map(|x| x.iter().map(|v| v.integer().unwrap_or(-1)).collect::<Vec<_>>()).unwrap_or_default();
            let quoted = m.get(&key(name, 3)).map(|x| x.len()).unwrap_or(0);
            let one = m.get_single(name).and_then(|v| v.integer().ok());
            let idx = guard_call(|| m[name].integer().unwrap_or(-1)).ok();
            if many != found || quoted != found.len() || one != found.first().copied() || idx != one {
                return fail(&format!("looking up {:?}", name), &text, (many, quoted, one, idx));
            }
        }
        obs_with(hash_str(&text), k > 1, w, || text.clone())
    }));
    v
}

pub const C20: Prop = Prop {
    id: "C20",
    rule: "an execution fills and extends a container and compares its length, look-ups and every step of every iterator with a list; non-trivial: at least two entries",
    assumptions: &["a lookup in an unmerged container gives a list even of one, as its documentation and tests do"],
    families: c20,
};
