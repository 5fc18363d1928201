//! C14 lookups, C15 counts, C16 iteration of the block index.
use crate::explore::*;
use crate::{model, ramp, Prop};
use fc::parser::block::{Block, BlockBody, BlockLabel, Blocks};
use fc::parser::body::{Body, BodyElement};
use fc::parser::Expression;
use ferrous_chloride as fc;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

/// A block put in: its type, the texts of its labels and what its body says.
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    ty: String,
    labels: Vec<String>,
    id: usize,
}

fn body(id: usize) -> Body<'static> {
    vec![BodyElement::Attribute((Cow::Owned(format!("k{}", id)), Expression::Number(From::from(id as u64))))]
}

fn body_id(b: &Body) -> Result<usize, String> {
    match b.first() {
        Some(BodyElement::Attribute((k, Expression::Number(n)))) => match n.as_u64() {
            Ok(i) if **k == format!("k{}", i) => Ok(i as usize),
            _ => Err(format!("a body was changed: {:?}", b)),
        },
        _ => Err(format!("a body was changed: {:?}", b)),
    }
}

fn label(s: &str, quoted: bool) -> BlockLabel<'static> {
    if quoted {
        BlockLabel::StringLiteral(s.to_string())
    } else {
        BlockLabel::Identifier(Cow::Owned(s.to_string()))
    }
}

fn block(r: &Rec, quoted: usize) -> Block<'static> {
    // which labels are quoted: none, all, the even ones, the odd ones
    let labels = r.labels.iter().enumerate().map(|(i, l)| label(l, [false, true, i % 2 == 0, i % 2 == 1][quoted])).collect();
    Block::new(Cow::Owned(r.ty.clone()), labels, body(r.id))
}

/// Puts the blocks in: the first `first` at once, then one by one or several at once.
fn insert(recs: &[Rec], forms: &[usize], first: usize, collect: bool, append: &[bool]) -> Blocks<'static> {
    let all: Vec<Block<'static>> = recs.iter().zip(forms).map(|(r, f)| block(r, *f)).collect();
    let mut rest = all.into_iter();
    let head: Vec<_> = rest.by_ref().take(first).collect();
    let mut blocks = if collect { head.into_iter().collect() } else { Blocks::new(head) };
    let mut pending = vec![];
    for (b, a) in rest.zip(append) {
        if *a {
            blocks.extend(pending.drain(..));
            blocks.append(b);
        } else {
            pending.push(b);
        }
    }
    blocks.extend(pending);
    blocks
}

fn lists(alphabet: &[&str], max: usize) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for a in alphabet {
                let mut v = out[i].clone();
                v.push(a.to_string());
                out.push(v);
            }
        }
        from = to;
    }
    out
}

#[derive(Clone)]
struct World {
    types: Vec<&'static str>,
    labels: Vec<Vec<String>>,
    ask_types: Vec<&'static str>,
    ask: Vec<Vec<String>>,
}

fn world(types: &[&'static str], alphabet: &[&str], max: usize, ask: &[&str], ask_max: usize) -> World {
    let mut ask_types = types.to_vec();
    ask_types.extend(["zz", ""]);
    World { types: types.to_vec(), labels: lists(alphabet, max), ask_types, ask: lists(ask, ask_max) }
}

/// Chooses a history of insertions.
fn history(ch: &mut Chooser, w: &World, max: usize, forms: bool, modes: bool) -> (Vec<Rec>, Vec<usize>, usize, bool, Vec<bool>) {
    let n = ch.range(0, max);
    let mut recs = vec![];
    let mut fs = vec![];
    for id in 0..n {
        let ty = ch.pick(&w.types).to_string();
        let labels = ch.pick(&w.labels).clone();
        fs.push(if forms && !labels.is_empty() { ch.choose(if labels.len() > 1 { 4 } else { 2 }) } else { (id * 7 + labels.len()) % 4 });
        recs.push(Rec { ty, labels, id });
    }
    let (first, collect, append);
    if modes {
        first = ch.choose(n + 1);
        collect = ch.flag();
        append = (first..n).map(|_| ch.flag()).collect();
    } else {
        let m = ch.choose(4);
        first = [n, 0, 0, n / 2][m];
        collect = m == 3;
        append = (first..n).map(|i| m == 1 || (m == 3 && i % 2 == 0)).collect();
    }
    ch.note(|| format!("{:?} first {} collect {} append {:?} forms {:?}", recs, first, collect, append, fs));
    (recs, fs, first, collect, append)
}

fn ids(bodies: &[Body]) -> Result<Vec<usize>, String> {
    bodies.iter().map(body_id).collect()
}

fn starts<'a>(recs: &'a [Rec], ty: &'a str, labels: &'a [String]) -> impl Iterator<Item = &'a Rec> + 'a {
    recs.iter().filter(move |r| r.ty == ty && r.labels.starts_with(labels))
}

/// What is below some labels has to be the records' suffixes.
fn below(b: &BlockBody, recs: &[(&[String], usize)], depth: usize) -> Result<(), String> {
    let exact: Vec<usize> = recs.iter().filter(|r| r.0.is_empty()).map(|r| r.1).collect();
    let got = ids(b.get_empty())?;
    if got != exact {
        return Err(format!("the bodies are {:?}, expected {:?}", got, exact));
    }
    let next: BTreeSet<&str> = recs.iter().filter_map(|r| r.0.first().map(String::as_str)).collect();
    let got: Vec<&str> = b.get_labels().map(|m| m.keys().map(|k| k.as_str()).collect()).unwrap_or_default();
    let set: BTreeSet<&str> = got.iter().copied().collect();
    if set != next || got.len() != next.len() {
        return Err(format!("the further labels are {:?}, expected {:?}", got, next));
    }
    if b.has_further_labels() == next.is_empty() {
        return Err(format!("has_further_labels is {} with {:?}", b.has_further_labels(), next));
    }
    if depth > 0 {
        for l in next {
            let inner: Vec<(&[String], usize)> = recs.iter().filter(|r| r.0.first().map(String::as_str) == Some(l)).map(|r| (&r.0[1..], r.1)).collect();
            match (b.get(&[l]), b.get_labels().and_then(|m| m.get(l))) {
                (Some(x), Some(y)) => {
                    if !std::ptr::eq(x, y) {
                        return Err(format!("get and get_labels differ at {:?}", l));
                    }
                    below(x, &inner, depth - 1)?
                }
                _ => return Err(format!("the label {:?} is not found below", l)),
            }
        }
    }
    Ok(())
}

fn lookups(blocks: &mut Blocks<'static>, recs: &[Rec], w: &World) -> Result<u64, String> {
    let mut found = 0;
    for ty in &w.ask_types {
        for ask in &w.ask {
            let suffixes: Vec<(&[String], usize)> = starts(recs, ty, ask).map(|r| (&r.labels[ask.len()..], r.id)).collect();
            let strs: Vec<&str> = ask.iter().map(String::as_str).collect();
            let at = |e: String| format!("get({:?}, {:?}): {}", ty, ask, e);
            match blocks.get(ty, &strs) {
                None if suffixes.is_empty() => {}
                None => return Err(at("nothing found".into())),
                Some(_) if suffixes.is_empty() => return Err(at("something found".into())),
                Some(b) => {
                    found += 1;
                    below(b, &suffixes, 4).map_err(at)?;
                    // looking up in steps is the same
                    if let Some((last, first)) = strs.split_last() {
                        let s = blocks.get(ty, first).and_then(|f| f.get(&[*last]));
                        if s.map_or(true, |s| !std::ptr::eq(s, b)) {
                            return Err(at("looking up in two steps differs".into()));
                        }
                    }
                }
            }
            match blocks.get_mut(ty, ask) {
                None if suffixes.is_empty() => {}
                None => return Err(at("nothing found by get_mut".into())),
                Some(_) if suffixes.is_empty() => return Err(at("something found by get_mut".into())),
                Some(b) => below(b, &suffixes, 0).map_err(|e| at(format!("get_mut: {}", e)))?,
            }
        }
    }
    Ok(found)
}

fn sample(w: bool, recs: &[Rec]) -> Option<String> {
    if w {
        Some(recs.iter().map(|r| format!("{} {}", r.ty, r.labels.join("."))).collect::<Vec<_>>().join("; "))
    } else {
        None
    }
}

fn class(recs: &[Rec]) -> u64 {
    hash_str(&recs.iter().map(|r| format!("{}/{}", r.ty, r.labels.join("."))).collect::<Vec<_>>().join(";"))
}

type Judge = fn(&mut Chooser, Blocks<'static>, &[Rec], &World) -> Result<(), String>;

fn histories(t: bool, judge: Judge, more: usize) -> Vec<Family> {
    let wide = world(&["b", "c"], &["x", "y"], 3, &["x", "y", "z"], 4);
    let mid = world(&["b", "c"], &["x", "y"], 2, &["x", "y"], 3);
    let narrow = world(&["b"], &["x", "y"], 2, &["x", "y"], 3);
    let names = world(&["b", "é", ""], &["", "é", "x y", "x"], 2, &["", "é", "x y", "x", "e"], 3);
    let go = move |name: &str, bound: &str, w: World, max: usize, forms: bool, modes: bool| {
        Family::new(name, bound, move |ch, want| {
            let (recs, fs, first, collect, append) = history(ch, &w, max, forms, modes);
            let blocks = guard(|| insert(&recs, &fs, first, collect, &append))?;
            let r = judge(ch, blocks, &recs, &w);
            r.map_err(|e| format!("{}\n  blocks {:?}\n  the first {} at once, then appended {:?}", e, recs, first, append))?;
            Ok(Obs { class: class(&recs), nontrivial: recs.len() > 1, sample: sample(want, &recs) })
        })
    };
    let mut sizes: Vec<usize> = ramp::sizes(false);
    if more < 2 {
        sizes.extend(ramp::large(false));
    }
    vec![
        iterators(judge),
        alike(judge, if more > 1 { 513 } else { 65537 }),
        go("two types", "every history of up to 2 blocks over 2 types and 15 label lists, all label forms, every mix of ways to insert", wide.clone(), 2, true, true),
        go("three blocks", "every history of up to 3 blocks over 2 types and 15 label lists, 4 ways to insert", wide, if more > 1 { 2 } else { 3 }, false, false),
        go("mixes", "every history of up to 3 blocks over 2 types and 7 label lists, every mix of ways to insert", mid.clone(), 3, false, true),
        go("four blocks", "every history of up to 4 (thorough: 5) blocks over 7 label lists, 4 ways to insert", narrow, if t { 5 } else { 4 }, false, false),
        go("map orders", "every history of up to 4 (thorough: 5) blocks over 5 label lists of 3 first labels, 4 ways to insert, each with 12 (C16, quick: 4) seeds of the hash maps", World { labels: vec![vec![], vec!["x".into()], vec!["y".into()], vec!["z".into()], vec!["x".into(), "y".into()]], types: vec!["b"], ..mid.clone() }, if t { 5 } else { 4 }, false, false).orders(if more > 1 { 4 } else { 12 }),
        go("map orders of types", "every history of up to 3 (thorough: 4) blocks over 3 types and 3 label lists, each with 12 (C16, quick: 4) seeds of the hash maps", World { labels: vec![vec![], vec!["x".into()], vec!["y".into(), "x".into()]], types: vec!["b", "c", "d"], ..mid.clone() }, if t { 4 } else { 3 }, false, false).orders(if more > 1 { 4 } else { 12 }),
        go("orders", "every history of up to 4 (thorough: 5) blocks over 2 types and 3 label lists, every mix of ways to insert", World { labels: vec![vec![], vec!["x".into()], vec!["x".into(), "y".into()]], ..mid.clone() }, if t { 5 } else { 4 }, false, true),
        go("names", "every history of up to 2 blocks over 3 types and 21 lists of labels that are empty, not ASCII or have blanks", names, 2, true, false),
        Family::new("growth", &format!("{} sizes of 8 kinds: many labels, many types, many blocks under no, one or several labels, long lists of labels; 4 ways to insert", sizes.len()), move |ch, want| {
            let n = *ch.pick(&sizes);
            let kind = ch.choose(8);
            let n = if kind == 0 && n > 8193 { n / 8 } else { n };
            if kind == 6 && n > 513 || kind == 7 && n > if more < 2 { 257 } else { 130 } {
                // deep trees are taken down recursively
                return obs(0, false);
            }
            let recs: Vec<Rec> = match kind {
                0 => (0..n).map(|i| Rec { ty: "b".into(), labels: vec![format!("l{}", i)], id: i }).collect(),
                1 => (0..n).map(|i| Rec { ty: format!("t{}", i), labels: vec![], id: i }).collect(),
                2 => (0..n).map(|i| Rec { ty: "b".into(), labels: vec!["x".into(); i % 3], id: i }).collect(),
                3 => (0..n).map(|i| Rec { ty: ["b", "c"][i % 2].into(), labels: vec![format!("l{}", i % 7), format!("m{}", i % 5)], id: i }).collect(),
                4 => (0..n).map(|i| Rec { ty: "b".into(), labels: vec![], id: i }).collect(),
                5 => (0..n).map(|i| Rec { ty: "b".into(), labels: vec!["x".into()], id: i }).collect(),
                6 => vec![Rec { ty: "b".into(), labels: (0..n).map(|i| format!("l{}", i)).collect(), id: 0 }],
                _ => (0..n).map(|i| Rec { ty: "b".into(), labels: vec!["x".into(); i], id: i }).collect(),
            };
            let m = ch.choose(4);
            let first = [recs.len(), 0, 0, recs.len() / 2][m];
            let append: Vec<bool> = (first..recs.len()).map(|i| m == 1 || (m == 3 && i % 2 == 0)).collect();
            let forms: Vec<usize> = (0..recs.len()).map(|i| i % 4).collect();
            ch.note(|| format!("kind {} size {} mode {}", kind, n, m));
            let mut ask: Vec<Vec<String>> = vec![vec![], vec!["nope".into()]];
            let mut ask_types: BTreeSet<&'static str> = ["b", "c", "nope", "t0"].into_iter().collect();
            for i in [0, n / 2, n.saturating_sub(1)] {
                if let Some(r) = recs.get(i) {
                    ask.push(r.labels.clone());
                    ask.push(r.labels.iter().take(r.labels.len() / 2).cloned().collect());
                    ask.push(r.labels.iter().cloned().chain(std::iter::once("more".to_string())).collect());
                    if kind == 1 && n < 100 {
                        ask_types.insert(["t1", "t5", "t40"][i % 3]);
                    }
                }
            }
            let w = World { types: vec![], labels: vec![], ask_types: ask_types.into_iter().collect(), ask };
            let blocks = guard(|| insert(&recs, &forms, first, m == 3, &append))?;
            judge(ch, blocks, &recs, &w).map_err(|e| model::clip(&format!("{}\n  {} blocks of kind {}", e, recs.len(), kind)))?;
            Ok(Obs { class: (n * 16 + kind) as u64, nontrivial: recs.len() > 1, sample: if want { Some(format!("kind {} size {}", kind, n)) } else { None } })
        }),
    ]
}

/// Blocks whose types or labels are easily mistaken for one another.
fn alike(judge: Judge, max: usize) -> Family {
    use crate::gen;
    Family::new("alike", &format!("{}, as types, first labels, second labels and first labels of longer lists of 3 blocks", gen::alike_bound(max)), move |ch, want| {
        let (x, y) = gen::alike(ch, false, max);
        let kind = ch.choose(4);
        let one = ch.flag();
        let rec = |t: &str, id: usize| match kind {
            0 => Rec { ty: t.to_string(), labels: vec!["l".into()], id },
            1 => Rec { ty: "b".into(), labels: vec![t.to_string()], id },
            2 => Rec { ty: "b".into(), labels: vec!["l".into(), t.to_string()], id },
            _ => Rec { ty: "b".into(), labels: vec![t.to_string(), "l".into()], id },
        };
        let recs = vec![rec(&x, 0), rec(&y, 1), rec(&x, 2)];
        ch.note(|| model::clip(&format!("{:?}", recs)));
        let mut ask: Vec<Vec<String>> = vec![vec![], vec!["l".into()]];
        ask.extend(recs[..2].iter().map(|r| r.labels.clone()));
        ask.extend([&x, &y].iter().map(|t| vec![t.to_string()]));
        let keep: Vec<&'static str> = if kind == 0 { vec![Box::leak(x.clone().into_boxed_str()), Box::leak(y.clone().into_boxed_str())] } else { vec!["b"] };
        let w = World { types: vec![], labels: vec![], ask_types: keep.into_iter().collect::<BTreeSet<_>>().into_iter().collect(), ask };
        let first = if one { 0 } else { 3 };
        let blocks = guard(|| insert(&recs, &[0, 1, 2], first, false, &[true, true, true][first..]))?;
        judge(ch, blocks, &recs, &w).map_err(|e| format!("{}\n  {}", model::clip(&e), model::clip(&format!("{:?}", recs))))?;
        Ok(Obs { class: model::hash(&(kind, x == y, x.len(), y.len())), nontrivial: true, sample: sample(want && x.len() < 100, &recs) })
    })
}

/// Indexes collected from iterators that do not say how much they have.
fn iterators(judge: Judge) -> Family {
    use crate::hints::*;
    Family::new("iterators", &format!("{} sizes of 4 kinds, constructed, collected or extended from iterators of {} kinds of size hint", SIZES.len(), HINTS), move |ch, want| {
        let n = *ch.pick(SIZES);
        let kind = ch.choose(4);
        let h = ch.choose(HINTS);
        let how = ch.choose(4);
        ch.note(|| format!("size {} kind {} hint {} way {}", n, kind, h, how));
        let recs: Vec<Rec> = (0..n)
            .map(|i| match kind {
                0 => Rec { ty: "b".into(), labels: vec![], id: i },
                1 => Rec { ty: ["b", "c"][i % 2].into(), labels: vec!["x".into(); i % 3], id: i },
                2 => Rec { ty: "b".into(), labels: vec![["x", "y", "z"][i % 3].into(), "x".into()], id: i },
                _ => Rec { ty: ["b", "c", "d"][i / 3 % 3].into(), labels: vec![], id: i },
            })
            .collect();
        let all = |from: usize, to: usize| hinted(recs[from..to].iter().map(|r| block(r, r.id % 4)).collect::<Vec<_>>(), h);
        let blocks = guard(|| match how {
            0 => Blocks::new(all(0, n)),
            1 => all(0, n).collect(),
            2 => {
                let mut b = Blocks::new(vec![]);
                b.extend(all(0, n));
                b
            }
            _ => {
                let mut b = Blocks::new(all(0, n / 2));
                b.extend(all(n / 2, n));
                b
            }
        })?;
        let w = World { types: vec![], labels: vec![], ask_types: vec!["b", "c", "d", "zz"], ask: lists(&["x", "y", "z"], 2) };
        judge(ch, blocks, &recs, &w).map_err(|e| model::clip(&format!("{}\n  size {} kind {} hint {} way {}", e, n, kind, h, how)))?;
        obs_with(model::hash(&(n, kind, h, how)), n > 1, want, || format!("{} {} {} {}", n, kind, h, how))
    })
}

/// The tree below one type on its own.
fn bodies(t: bool, judge: fn(BlockBody<'static>, &[Rec]) -> Result<(), String>) -> Family {
    let lists = lists(&["x", "y"], 2);
    let max = if t { 5 } else { 4 };
    Family::new("below a type", &format!("every history of up to {} insertions of 7 label lists into the tree of one type, collected, appended or extended", max), move |ch, w| {
        let n = ch.range(1, max);
        let recs: Vec<Rec> = (0..n).map(|id| Rec { ty: "b".into(), labels: ch.pick(&lists).clone(), id }).collect();
        let mode = ch.choose(3);
        let pairs: Vec<(Vec<BlockLabel<'static>>, Body<'static>)> = recs.iter().map(|r| (block(r, r.id % 4).labels, body(r.id))).collect();
        ch.note(|| format!("{:?} mode {}", recs, mode));
        let b = guard(|| match mode {
            0 => pairs.into_iter().collect::<BlockBody>(),
            1 => {
                let mut b = BlockBody::new();
                for (l, x) in pairs {
                    b.append(l, x);
                }
                b
            }
            _ => {
                let mut b = BlockBody::default();
                let mut it = pairs.into_iter();
                b.extend(it.by_ref().take(n / 2));
                b.extend(it);
                b
            }
        })?;
        guard(|| judge(b, &recs))?.map_err(|e| format!("{}\n  {:?} mode {}", e, recs, mode))?;
        Ok(Obs { class: class(&recs), nontrivial: n > 1, sample: sample(w, &recs) })
    })
}

fn suffixes<'a>(recs: &'a [Rec]) -> Vec<(&'a [String], usize)> {
    recs.iter().map(|r| (&r.labels[..], r.id)).collect()
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "an execution is a history of insertions into the index; after it every lookup of the bound (types, prefixes of labels, labels that are not there) is compared with the list of blocks put in; non-trivial: at least two blocks",
    assumptions: &[],
    families: |t| {
        let mut v = histories(t, |_, mut b, recs, w| guard(|| lookups(&mut b, recs, w))?.map(|_| ()), 1);
        v.push(bodies(t, |b, recs| below(&b, &suffixes(recs), 9)));
        v.push(Family::new("documents", "every document of up to 4 blocks of 12 kinds, parsed and put in", |ch, w| {
            const B: &[(&str, &str, &[&str])] = &[
                ("b {}\n", "b", &[]), ("b x {}\n", "b", &["x"]), ("b \"x\" {}\n", "b", &["x"]), ("b x y {}\n", "b", &["x", "y"]), ("b \"x\" y {}\n", "b", &["x", "y"]), ("b x \"y\" {}\n", "b", &["x", "y"]),
                ("c \"x\" {}\n", "c", &["x"]), ("c {}\n", "c", &[]), ("b \"\" {}\n", "b", &[""]), ("b \"é\" {}\n", "b", &["é"]), ("b é {}\n", "b", &["é"]), ("b \"\\u00e9\" x {}\n", "b", &["é", "x"]),
            ];
            let n = ch.range(1, 4);
            let mut text = String::new();
            let mut recs = vec![];
            for id in 0..n {
                let (t, ty, l) = *ch.pick(B);
                text.push_str(&t.replace("{}", &format!("{{ k{} = {} }}", id, id)));
                recs.push(Rec { ty: ty.into(), labels: l.iter().map(|s| s.to_string()).collect(), id });
            }
            ch.note(|| text.clone());
            let r = guard(|| -> Result<(), String> {
                let parsed = match fc::parse_str(&text) {
                    Ok(p) => p,
                    Err(e) => return Err(format!("not parsed: {}", e)),
                };
                let blocks: Blocks = parsed.into_iter().filter(|e| e.is_block()).map(|e| e.unwrap_block()).collect();
                for ty in ["b", "c", "x"] {
                    for ask in [&[][..], &["x"], &["y"], &["x", "y"], &[""], &["é"], &["é", "x"], &["x", "y", "z"]] {
                        let ask_s: Vec<String> = ask.iter().map(|s| s.to_string()).collect();
                        let suf: Vec<(&[String], usize)> = starts(&recs, ty, &ask_s).map(|r| (&r.labels[ask.len()..], r.id)).collect();
                        match blocks.get(ty, ask) {
                            None if suf.is_empty() => {}
                            Some(b) if !suf.is_empty() => below(b, &suf, 3)?,
                            o => return Err(format!("get({:?}, {:?}) is {:?}", ty, ask, o)),
                        }
                    }
                }
                Ok(())
            })?;
            r.map_err(|e| format!("{}\n  text {:?}", e, text))?;
            Ok(Obs { class: class(&recs), nontrivial: n > 1, sample: if w { Some(text) } else { None } })
        }));
        v
    },
};

// ---------------------------------------------------------------- counts

fn uniform(lens: &BTreeSet<usize>) -> Option<usize> {
    if lens.len() == 1 { lens.iter().next().copied() } else { None }
}

fn counts_below(b: &BlockBody, recs: &[(&[String], usize)]) -> Result<(), String> {
    let lens: BTreeSet<usize> = recs.iter().map(|r| r.0.len()).collect();
    if b.len_blocks() != recs.len() {
        return Err(format!("len_blocks is {}, expected {}", b.len_blocks(), recs.len()));
    }
    if b.label_lens() != lens {
        return Err(format!("label_lens is {:?}, expected {:?}", b.label_lens(), lens));
    }
    if b.label_lens_uniform() != uniform(&lens) {
        return Err(format!("label_lens_uniform is {:?}, expected {:?}", b.label_lens_uniform(), uniform(&lens)));
    }
    if b.is_label_lens_uniform() != (lens.len() == 1) {
        return Err(format!("is_label_lens_uniform is {:?} for {:?}", b.is_label_lens_uniform(), lens));
    }
    if b.has_further_labels() != recs.iter().any(|r| !r.0.is_empty()) {
        return Err(format!("has_further_labels is {}", b.has_further_labels()));
    }
    Ok(())
}

fn counts(blocks: &Blocks, recs: &[Rec], w: &World) -> Result<(), String> {
    let mut types: BTreeMap<&str, BTreeSet<usize>> = BTreeMap::new();
    for r in recs {
        types.entry(&r.ty).or_default().insert(r.labels.len());
    }
    if blocks.len() != types.len() {
        return Err(format!("len is {}, expected {}", blocks.len(), types.len()));
    }
    if blocks.is_empty() != types.is_empty() {
        return Err(format!("is_empty is {} with {} types", blocks.is_empty(), types.len()));
    }
    if blocks.len_blocks() != recs.len() {
        return Err(format!("len_blocks is {}, expected {}", blocks.len_blocks(), recs.len()));
    }
    let got: BTreeMap<&str, BTreeSet<usize>> = blocks.label_lens().into_iter().collect();
    if got != types {
        return Err(format!("label_lens is {:?}, expected {:?}", got, types));
    }
    let exp: BTreeMap<&str, Option<usize>> = types.iter().map(|(k, v)| (*k, uniform(v))).collect();
    let got: BTreeMap<&str, Option<usize>> = blocks.label_lens_uniform().into_iter().collect();
    if got != exp {
        return Err(format!("label_lens_uniform is {:?}, expected {:?}", got, exp));
    }
    let exp: BTreeMap<&str, bool> = types.iter().map(|(k, v)| (*k, v.len() == 1)).collect();
    let got: BTreeMap<&str, bool> = blocks.is_label_lens_uniform().into_iter().collect();
    if got != exp {
        return Err(format!("is_label_lens_uniform is {:?}, expected {:?}", got, exp));
    }
    for ty in &w.ask_types {
        for ask in &w.ask {
            let suf: Vec<(&[String], usize)> = starts(recs, ty, ask).map(|r| (&r.labels[ask.len()..], r.id)).collect();
            if let Some(b) = blocks.get(ty, ask) {
                if !suf.is_empty() {
                    counts_below(b, &suf).map_err(|e| format!("below {:?} {:?}: {}", ty, ask, e))?;
                }
            }
        }
    }
    Ok(())
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "an execution is a history of insertions into the index; after it every count, of the whole and below every list of labels of the bound, is compared with the list of blocks put in; non-trivial: at least two blocks",
    assumptions: &[],
    families: |t| {
        let mut v = histories(t, |_, b, recs, w| guard(|| counts(&b, recs, w))?, 1);
        v.push(bodies(t, |b, recs| counts_below(&b, &suffixes(recs))));
        v
    },
};

// ---------------------------------------------------------------- iteration

type Seen = Vec<(String, Vec<String>, usize)>;

/// Whether what was seen is every block once, those of the same type and labels in order.
fn same(what: &str, seen: Seen, recs: &[Rec]) -> Result<(), String> {
    let mut by: BTreeMap<(&str, &[String]), Vec<usize>> = BTreeMap::new();
    for (t, l, i) in &seen {
        by.entry((t, l)).or_default().push(*i);
    }
    let mut exp: BTreeMap<(&str, &[String]), Vec<usize>> = BTreeMap::new();
    for r in recs {
        exp.entry((&r.ty, &r.labels)).or_default().push(r.id);
    }
    if by != exp {
        return Err(format!("{} gives {:?}, expected {:?}", what, by, exp));
    }
    Ok(())
}

/// Follows the tree by hand.
fn walk(ty: &str, b: &BlockBody, path: &mut Vec<String>, out: &mut Seen) -> Result<(), String> {
    for x in b.get_empty() {
        out.push((ty.to_string(), path.clone(), body_id(x)?));
    }
    if let Some(m) = b.get_labels() {
        for (l, x) in m {
            path.push(l.as_str().to_string());
            walk(ty, x, path, out)?;
            path.pop();
        }
    }
    Ok(())
}

fn strings<S: AsRef<str>>(v: impl IntoIterator<Item = S>) -> Vec<String> {
    v.into_iter().map(|s| s.as_ref().to_string()).collect()
}

/// Gives a mutable reference that may live as long as it likes, and takes the value back.
fn with_static<T: 'static, R>(value: T, f: impl FnOnce(&'static mut T) -> R) -> (T, R) {
    let p = Box::into_raw(Box::new(value));
    // `f` gives nothing back that borrows from its argument in the uses below
    let r = f(unsafe { &mut *p });
    (*unsafe { Box::from_raw(p) }, r)
}

fn iterate(blocks: &Blocks<'static>, recs: &[Rec]) -> Result<(), String> {
    let mut seen = vec![];
    for (t, l, b) in blocks.flat_iter() {
        seen.push((t.to_string(), strings(l), body_id(b)?));
    }
    same("flat_iter", seen, recs)?;
    let mut seen = vec![];
    for (t, b) in blocks.iter() {
        walk(t, b, &mut vec![], &mut seen)?;
    }
    same("iter", seen, recs)?;
    let mut seen = vec![];
    for (t, b) in blocks {
        for (l, x) in b.flat_iter() {
            seen.push((t.to_string(), strings(l), body_id(x)?));
        }
    }
    same("the shared iterator and flat_iter of each type", seen, recs)?;
    let mut seen = vec![];
    for (t, b) in blocks.clone() {
        for (l, x) in b.flat_into_iter() {
            seen.push((t.to_string(), strings(l), body_id(&x)?));
        }
    }
    same("the consuming iterator and flat_into_iter of each type", seen, recs)?;
    let mut seen = vec![];
    for (t, l, x) in blocks.clone().flat_into_iter() {
        seen.push((t.to_string(), strings(l), body_id(&x)?));
    }
    same("flat_into_iter", seen, recs)?;
    let (after, seen) = with_static(blocks.clone(), |b| -> Result<Seen, String> {
        let mut seen = vec![];
        for (t, l, x) in b.flat_iter_mut() {
            seen.push((t.to_string(), strings(l), body_id(x)?));
        }
        Ok(seen)
    });
    same("flat_iter_mut", seen?, recs)?;
    if after != *blocks {
        return Err("flat_iter_mut changes the index".into());
    }
    Ok(())
}

fn mark() -> BodyElement<'static> {
    BodyElement::Attribute((Cow::Borrowed("mark"), Expression::Boolean(true)))
}

/// The blocks that carry the mark, by id; every other body has to be as it was put in.
fn marked(blocks: &Blocks<'static>, recs: &[Rec]) -> Result<BTreeSet<usize>, String> {
    let mut out = BTreeSet::new();
    let check = |x: &Body, out: &mut BTreeSet<usize>| -> Result<usize, String> {
        let id = body_id(x)?;
        match x.len() {
            1 => {}
            2 if x[1] == mark() => {
                out.insert(id);
            }
            _ => return Err(format!("a body was changed: {:?}", x)),
        }
        Ok(id)
    };
    let mut seen = vec![];
    for (t, l, x) in blocks.flat_iter() {
        seen.push((t.to_string(), strings(l), check(x, &mut out)?));
    }
    same("after a change, flat_iter", seen, recs)?;
    // and by looking up
    let mut by_get = BTreeSet::new();
    let mut done = BTreeSet::new();
    for r in recs {
        if !done.insert((r.ty.clone(), r.labels.clone())) {
            continue;
        }
        match blocks.get(&r.ty, &r.labels) {
            Some(b) => {
                for x in b.get_empty() {
                    check(x, &mut by_get)?;
                }
            }
            None => return Err(format!("after a change {:?} {:?} is not found", r.ty, r.labels)),
        }
    }
    if by_get != out {
        return Err(format!("the lookups see the marks {:?}, the iterator {:?}", by_get, out));
    }
    Ok(out)
}

/// Changes some bodies through one of the mutable ways; gives the index and the ids changed.
fn mutate(ch: &mut Chooser, blocks: Blocks<'static>, recs: &[Rec]) -> Result<(), String> {
    if recs.is_empty() {
        return Ok(());
    }
    let target = if recs.len() <= 8 { ch.choose(recs.len()) } else { recs.len() / 2 };
    let way = ch.choose(6);
    let r = recs[target].clone();
    let mut expect: BTreeSet<usize> = BTreeSet::new();
    let result = guard(move || -> Result<(Blocks<'static>, Option<Rec>), String> {
        let mut blocks = blocks;
        match way {
            0 | 1 | 2 => {
                let (b, res) = with_static(blocks, |b| -> Result<(), String> {
                    match way {
                        0 => {
                            for (_, _, x) in b.flat_iter_mut() {
                                if body_id(x)? == r.id {
                                    x.push(mark());
                                }
                            }
                        }
                        1 => {
                            for (_, body) in b.iter_mut() {
                                for (_, x) in body.flat_iter_mut() {
                                    if body_id(x)? == r.id {
                                        x.push(mark());
                                    }
                                }
                            }
                        }
                        _ => {
                            if let Some(body) = b.get_mut(&r.ty, &r.labels) {
                                for (l, x) in body.flat_iter_mut() {
                                    if l.is_empty() && body_id(x)? == r.id {
                                        x.push(mark());
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                });
                res?;
                blocks = b;
                Ok((blocks, None))
            }
            3 => {
                let (b, res) = with_static(blocks, |b| -> Result<(), String> {
                    for (_, body) in b {
                        for (_, x) in body.flat_iter_mut() {
                            if body_id(x)? == r.id {
                                x.push(mark());
                            }
                        }
                    }
                    Ok(())
                });
                res?;
                Ok((b, None))
            }
            4 => {
                match blocks.get_mut(&r.ty, &r.labels) {
                    Some(BlockBody::Body(v)) | Some(BlockBody::Labels { empty: v, .. }) => {
                        for x in v {
                            if body_id(x)? == r.id {
                                x.push(mark());
                            }
                        }
                    }
                    None => return Err(format!("{:?} is not found", r)),
                }
                Ok((blocks, None))
            }
            _ => {
                // a block added below what was looked up
                let mut new = r.clone();
                new.id = 5000;
                new.labels.push("new".into());
                match blocks.get_mut(&r.ty, &r.labels) {
                    Some(b) => b.append(vec![label("new", true)], body(5000)),
                    None => return Err(format!("{:?} is not found", r)),
                }
                Ok((blocks, Some(new)))
            }
        }
    })?;
    let (after, new) = result?;
    let mut recs = recs.to_vec();
    match new {
        Some(n) => recs.push(n),
        None => {
            expect.insert(recs[target].id);
        }
    }
    let got = guard(|| marked(&after, &recs))??;
    if got != expect {
        return Err(format!("way {}: the block {} was changed, and the changes seen are {:?}", way, target, got));
    }
    Ok(())
}

pub const C16: Prop = Prop {
    id: "C16",
    rule: "an execution is a history of insertions into the index; after it every iterator is run and compared with the list of blocks put in, then one block is changed through one of 6 mutable ways and everything is compared again; non-trivial: at least two blocks",
    assumptions: &[],
    families: |t| {
        let mut v = histories(
            t,
            |ch, b, recs, _| {
                guard(|| iterate(&b, recs))??;
                mutate(ch, b, recs)
            },
            if t { 1 } else { 2 },
        );
        v.push(bodies(t, |b, recs| {
            let mut seen = vec![];
            for (l, x) in b.flat_iter() {
                seen.push(("b".to_string(), strings(l), body_id(x)?));
            }
            same("flat_iter of a tree", seen, recs)?;
            let mut seen = vec![];
            for (l, x) in b.clone().flat_into_iter() {
                seen.push(("b".to_string(), strings(l), body_id(&x)?));
            }
            same("flat_into_iter of a tree", seen, recs)?;
            let (_, seen) = with_static(b, |b| -> Result<Seen, String> {
                let mut seen = vec![];
                for (l, x) in b.flat_iter_mut() {
                    seen.push(("b".to_string(), strings(l), body_id(x)?));
                }
                Ok(seen)
            });
            same("flat_iter_mut of a tree", seen?, recs)
        }));
        v
    },
};
