//! C26: both front-ends read their common language alike.
use super::accept;
use crate::explore::*;
use crate::gen::{self, *};
use crate::model::{self, *};
use crate::render::Render;
use crate::{ramp, reflegacy, refparse, Prop};
use ferrous_chloride as fc;

/// What the older front-end is to make of a value; `None` when it has no such value.
fn old_value(e: &ME) -> Option<MV> {
    Some(match e {
        ME::Null => MV::Null,
        ME::Bool(b) => MV::Bool(*b),
        ME::Str(s) => MV::Str(s.clone()),
        ME::Num(n) => match n.parse::<i64>() {
            Ok(i) => MV::Int(i),
            Err(_) => MV::Float(n.parse::<f64>().ok()?.to_bits()),
        },
        ME::Tuple(t) => MV::List(t.iter().map(old_value).collect::<Option<_>>()?),
        ME::Object(o) => {
            let entries = o
                .iter()
                .map(|(k, v)| {
                    let k = match k {
                        MK::Ident(s) => s.clone(),
                        MK::Expr(s) => match refparse::expression(s) {
                            Some(ME::Str(x)) => x,
                            _ => return None,
                        },
                    };
                    Some((k, old_value(v)?))
                })
                .collect::<Option<_>>()?;
            MV::Object(vec![MM { merged: false, entries }])
        }
    })
}

fn old_body(b: &MBody) -> Option<MM> {
    let entries = b
        .iter()
        .map(|x| {
            Some(match x {
                MEl::Attr(k, v) => (k.clone(), old_value(v)?),
                MEl::Block(b) if b.labels.is_empty() => (b.ty.clone(), MV::Object(vec![old_body(&b.body)?])),
                MEl::Block(b) => {
                    let labels = b
                        .labels
                        .iter()
                        .map(|l| match l {
                            ML::Lit(s) => Some(s.clone()),
                            ML::Ident(_) => None,
                        })
                        .collect::<Option<_>>()?;
                    (b.ty.clone(), MV::Block(false, vec![(labels, old_body(&b.body)?)]))
                }
            })
        })
        .collect::<Option<_>>()?;
    Some(MM { merged: false, entries })
}

/// Compares both front-ends on a text that is in the common language; `known` says that it is.
fn compare(t: &str, known: bool, w: bool) -> Verdict {
    if !known && !(refparse::config(t).is_some() && reflegacy::document(t).is_some()) {
        return obs(0, false);
    }
    let new = guard(|| fc::parse_str(t).map(|b| model::body(&b)))?;
    let old = guard(|| fc::value::from_str(t, None).map(|m| model::map(&m)))?;
    match (new, old) {
        (Ok(n), Ok(o)) => {
            let want = match old_body(&n) {
                Some(x) => x,
                None => return Err(format!("{:?}: the configuration parser finds something that the older front-end has no form for: {}", clip(t), clip(&format!("{:?}", n)))),
            };
            if want != o {
                return Err(format!("{:?}: the configuration parser gives {} but the older front-end {}", clip(t), clip(&format!("{:?}", n)), clip(&format!("{:?}", o))));
            }
            obs_with(hash_str(&format!("{:?}", o)), !o.entries.is_empty(), w, || t.to_string())
        }
        (Err(e), Ok(_)) => Err(format!("{:?}: only the older front-end accepts it; the other says {}", clip(t), clip(&e.to_string()))),
        (Ok(_), Err(e)) => Err(format!("{:?}: only the configuration parser accepts it; the other says {}", clip(t), clip(&e.to_string()))),
        (Err(e), Err(_)) => Err(format!("{:?}: neither front-end accepts it: {}", clip(t), clip(&e.to_string()))),
    }
}

fn doc(ch: &mut Chooser, budget: &mut usize, depth: usize) -> MBody {
    let mut out = vec![];
    while *budget > 0 {
        let k = ch.choose(if depth > 0 { 10 } else { 8 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        out.push(match k {
            1 => attr("a", num("1")),
            2 => attr("b", st("s\n")),
            3 => attr("a", ME::Tuple(vec![ME::Null, obj(vec![("k", ME::Bool(true)), ("k", num("-1.5"))]), ME::Tuple(vec![])])),
            4 => attr("c", obj(vec![("a", ME::Object(vec![(MK::Expr(s("\"q r\"")), st(""))])), ("b", num("18446744073709551616"))])),
            5 => blk("a", vec![], vec![]),
            6 => blk("b", vec![lit("x"), lit("y z")], vec![attr("a", num("2"))]),
            7 => blk("a", vec![lit("")], vec![]),
            8 => blk("a", vec![], doc(ch, budget, depth - 1)),
            _ => blk("b", vec![lit("x")], doc(ch, budget, depth - 1)),
        });
    }
    out
}

fn written(m: &MBody, ch: Option<&mut Chooser>, one: bool) -> String {
    let mut r = Render::new(ch);
    r.common = true;
    r.body(m, &mut |b| one && b.body.is_empty());
    r.out
}

fn documents(budget: usize) -> Family {
    Family::new("documents", &format!("all documents of at most {} elements of 9 kinds, nested 3 deep, with empty blocks on one line and not", budget), move |ch, w| {
        let mut left = budget;
        let m = doc(ch, &mut left, 2);
        let t = written(&m, None, ch.flag());
        ch.note(|| t.clone());
        compare(&t, true, w)
    })
}

fn layouts(dev: u32) -> Family {
    let seeds: Vec<MBody> = gen::seeds().into_iter().filter(|m| old_body(m).is_some()).collect();
    Family::new("layouts", &format!("{} documents in every layout with at most {} departures from the default one that both references accept", seeds.len(), dev), move |ch, w| {
        let m = ch.pick(&seeds).clone();
        let one = ch.flag();
        let t = written(&m, Some(ch), one);
        ch.note(|| t.clone());
        compare(&t, false, w)
    })
    .dev(dev)
}

fn values() -> Family {
    let vals: Vec<_> = gen::values().into_iter().filter(|v| !v.0.starts_with('(') && !v.0.starts_with('\n') && !v.0.contains("(2)")).collect();
    Family::new("values", &format!("each of {} values in each of 8 places, next to each other value", vals.len()), move |ch, w| {
        let (v, _, eol) = ch.pick(&vals);
        let (v2, _, _) = ch.pick(&vals);
        let nl = if *eol { "\n" } else { "" };
        let t = match ch.choose(8) {
            0 => format!("a = {}\n", v),
            1 => format!("a = {}\nb = {}\n", v, v2),
            2 => format!("a = [{}{}]\n", v, nl),
            3 => format!("a = [1, {}{}, \"x\"]\n", v, nl),
            4 => format!("a = {{ k = {}\n }}\n", v),
            5 => format!("a {{\n  k = {}\n  l = {}\n}}\n", v, v2),
            6 => format!("a \"x\" {{\n  k = {}\n}}\nb = {}\n", v, v2),
            _ => format!("a = {{ \"k\" = {}\n j = {}\n}}\n", v, v2),
        };
        ch.note(|| t.clone());
        // the last entry of an object needs an end of its own in the older dialect
        compare(&t, !v.contains('{') && !v2.contains('{'), w)
    })
}

fn growth(big: bool) -> Family {
    let mut sizes = ramp::sizes(false);
    if big {
        sizes.extend([2047, 2048, 2049, 4095, 4096, 4097]);
    }
    Family::new("growth", &format!("{} kinds of growth at {} sizes up to {}, where both references accept", ramp::FLAT, sizes.len(), sizes[sizes.len() - 1]), move |ch, w| {
        let n = *ch.pick(&sizes);
        let k = ch.choose(ramp::FLAT);
        ch.note(|| format!("growth {} of size {}", k, n));
        compare(&ramp::flat(k, n).0, false, w)
    })
    .limit(120)
}

fn nesting() -> Family {
    Family::new("nesting", "7 kinds of nesting up to 150 deep, where both references accept", |ch, w| {
        let n = *ch.pick(&ramp::depths());
        let k = ch.choose(ramp::DEEP);
        ch.note(|| format!("nesting {} of depth {}", k, n));
        compare(&ramp::deep(k, n).0, false, w)
    })
}

fn words(name: &str, alphabet: &'static [&'static str], n: usize) -> Family {
    Family::new(name, &format!("every sequence of at most {} of {:?} that both references accept", n, alphabet), move |ch, w| {
        let t = gen::word(ch, alphabet, n);
        ch.note(|| format!("{:?}", t));
        compare(&t, false, w)
    })
}

fn numbers(n: usize) -> Family {
    Family::new("numbers", &format!("every value of at most {} of 0 1 9 . e - + that both references accept, and integers near powers of two", n), move |ch, w| {
        let v = if ch.flag() {
            let b = ch.range(0, 126);
            let d = ch.range(0, 4) as i128 - 2;
            format!("{}{}", if ch.flag() { "-" } else { "" }, (1i128 << b) + d)
        } else {
            gen::word(ch, &["0", "1", "9", ".", "e", "-", "+"], n)
        };
        ch.note(|| v.clone());
        compare(&format!("a = {}\n", v), false, w)
    })
}

fn strings(n: usize) -> Family {
    const LETTERS: &[&str] = &["a", "\\n", "\\\\", "\\\"", "\\x41", "\\101", "\\u00e9", "\\U0001F600", "\\q", "é", "\n", "#", "$", "{"];
    Family::new("strings", &format!("every string of at most {} of {:?}, as value, label, key and heredoc, where both references accept", n, LETTERS), move |ch, w| {
        let v = gen::word(ch, LETTERS, n);
        let t = match ch.choose(5) {
            0 => format!("a = \"{}\"\n", v),
            1 => format!("a \"{}\" {{\n}}\n", v),
            2 => format!("a = {{ \"{}\" = 1 }}\n", v),
            3 => format!("a = <<E\n{}\nE\n", v),
            _ => format!("a = <<-E\n  {}\n   {}\n E\n", v, v),
        };
        ch.note(|| format!("{:?}", t));
        compare(&t, false, w)
    })
}

fn edits() -> Family {
    let texts = accept::texts();
    Family::new("edits", &format!("every insertion, replacement or deletion of one of {} pieces in {} texts that both references accept", accept::INSERTS.len(), texts.len()), move |ch, w| {
        let t = ch.pick(&texts);
        let at: Vec<usize> = t.char_indices().map(|x| x.0).chain(Some(t.len())).collect();
        let i = ch.choose(at.len());
        let next = at.get(i + 1).copied().unwrap_or(t.len());
        let (a, z) = (&t[..at[i]], &t[at[i]..]);
        let text = match ch.choose(1 + 2 * accept::INSERTS.len()) {
            0 => format!("{}{}", a, &t[next..]),
            k => {
                let p = accept::INSERTS[(k - 1) / 2];
                format!("{}{}{}", a, p, if k % 2 == 1 { z } else { &t[next..] })
            }
        };
        ch.note(|| format!("{:?}", text));
        compare(&text, false, w)
    })
}

pub const C26: Prop = Prop {
    id: "C26",
    rule: "an execution makes a text, parses it with both front-ends and compares the results, the configuration parser's rewritten by the rules of the older front-end's values; texts are either generated to be common or accepted by both references; non-trivial: both accept and there is an entry",
    assumptions: &["whether a text is common is decided by the two recognisers (harness/src/refparse.rs, reflegacy.rs); the values are compared without them"],
    families: |t| {
        vec![
            documents(if t { 7 } else { 5 }),
            layouts(if t { 2 } else { 1 }),
            values(),
            words("tokens", &["a", "=", "1", "\"s\"", "\n", " ", "{", "}", "[", "]", ",", "#c\n", "/*c*/", "null", "<<E\nx\nE\n"], if t { 7 } else { 6 }),
            words("lines", &["a = 1\n", "b {\n", "b \"l\" {\n", "}\n", "c = {\n", "d = [\n", "1,\n", "]\n", "# c\n", "e = \"x\""], if t { 8 } else { 7 }),
            numbers(if t { 8 } else { 7 }),
            strings(if t { 6 } else { 5 }),
            edits(),
            growth(t),
            nesting(),
        ]
        .into_iter()
        .chain(gen::mixtures(t, |x, w| compare(x, false, w)))
        .collect()
    },
};
