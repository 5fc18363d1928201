//! C32 nodes built in code, C33 equality of documents and values.
use super::{merging, values};
use super::numbers::{is_literal, worth};
use crate::explore::*;
use crate::gen::{self, attr, blk, idl, lit, num, obj, s, st};
use crate::model::*;
use crate::render::{plain, plain_expr};
use crate::{ramp, refparse, Prop};
use fc::parser::block::{Block, BlockLabel};
use fc::parser::body::{Body, BodyElement};
use fc::parser::object::ObjectElementIdentifier as Oei;
use fc::parser::Expression;
use ferrous_chloride as fc;
use std::borrow::Cow;
use std::sync::Arc;

fn want(what: &str, ok: bool, of: &dyn std::fmt::Debug) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("{} of {}", what, clip(&format!("{:?}", of))))
    }
}

// ---------------------------------------------------------------- building

fn number(t: &str, form: usize) -> Expression<'static> {
    // the text of a native integer is the integer
    macro_rules! native {
        ($($i:expr => $t:ty),*) => { match form % 10 { $($i => t.parse::<$t>().ok().filter(|n| n.to_string() == t).map(Expression::from),)* _ => None } };
    }
    let n = if form == 0 { None } else { native!(1 => u8, 2 => i64, 3 => u128, 4 => i16, 5 => u32, 6 => i128, 7 => u64, 8 => i32, 9 => u16) };
    n.unwrap_or_else(|| match Expression::parse(t) {
        Ok(Expression::Number(n)) if form % 2 == 0 => Expression::Number(fc::AsOwned::as_owned(&n)),
        Ok(Expression::Number(n)) => Expression::from(fc::AsOwned::as_owned(&n)),
        r => panic!("the number {:?} parses as {:?}", t, r),
    })
}

fn leak(t: &str) -> &'static str {
    // short texts of a bounded set
    Box::leak(t.to_string().into_boxed_str())
}

pub fn build_expr(e: &ME, form: usize) -> Expression<'static> {
    match e {
        ME::Null => if form % 2 == 0 { Expression::Null } else { Expression::from(()) },
        ME::Bool(b) => if form % 2 == 0 { Expression::Boolean(*b) } else { Expression::from(*b) },
        ME::Num(t) => number(t, form),
        ME::Str(t) => match form % 4 {
            0 => Expression::String(Cow::Owned(t.clone())),
            1 => Expression::from(Cow::Owned(t.clone())),
            2 if t.len() < 8 => Expression::from(leak(t)),
            2 => Expression::String(Cow::Owned(t.clone())),
            _ => Expression::from(Cow::<'static, str>::from(t.clone())),
        },
        ME::Tuple(v) => {
            let items: Vec<Expression<'static>> = v.iter().enumerate().map(|(i, x)| build_expr(x, if form == 0 { 0 } else { form + i })).collect();
            match form % 4 {
                0 => Expression::Tuple(items),
                1 => Expression::new_tuple(items),
                2 => items.into_iter().collect(),
                _ => Expression::from(items),
            }
        }
        ME::Object(v) => {
            let key = |k: &MK| match k {
                MK::Ident(t) => Oei::Identifier(Cow::Owned(t.clone())),
                MK::Expr(t) => Oei::Expression(Cow::Owned(t.clone())),
            };
            let idents = v.iter().all(|(k, _)| matches!(k, MK::Ident(t) if t.len() < 8));
            match form % 3 {
                0 => Expression::Object(v.iter().map(|(k, x)| (key(k), build_expr(x, form))).collect()),
                1 if idents => Expression::new_object(v.iter().map(|(k, x)| {
                    let t = match k {
                        MK::Ident(t) | MK::Expr(t) => leak(t),
                    };
                    (t, build_expr(x, form))
                })),
                _ => Expression::new_object(v.iter().map(|(k, x)| (key(k), build_expr(x, form + 1)))),
            }
        }
    }
}

fn build_label(l: &ML, form: usize) -> BlockLabel<'static> {
    match l {
        ML::Lit(t) => BlockLabel::StringLiteral(t.clone()),
        ML::Ident(t) if form % 2 == 1 && t.len() < 8 => BlockLabel::from(leak(t)),
        ML::Ident(t) => BlockLabel::Identifier(Cow::Owned(t.clone())),
    }
}

fn build_block(b: &MB, form: usize) -> Block<'static> {
    let ty = Cow::Owned(b.ty.clone());
    let labels: Vec<BlockLabel<'static>> = b.labels.iter().map(|l| build_label(l, form)).collect();
    match (&b.body[..], form % 3) {
        ([], 1) => Block::new_one_line(ty, labels, None),
        ([MEl::Attr(k, v)], 1) => Block::new_one_line(ty, labels, Some((Cow::Owned(k.clone()), build_expr(v, form)))),
        (body, 2) => Block { r#type: ty, labels, body: build(body, form) },
        (body, _) => Block::new(ty, labels, build(body, form)),
    }
}

pub fn build(b: &[MEl], form: usize) -> Body<'static> {
    b.iter()
        .enumerate()
        .map(|(i, e)| match e {
            MEl::Attr(k, v) => {
                let a = (Cow::Owned(k.clone()), build_expr(v, if form == 0 { 0 } else { form + i }));
                if form % 2 == 0 { BodyElement::Attribute(a) } else { BodyElement::from(a) }
            }
            MEl::Block(m) => {
                let b = build_block(m, if form == 0 { 0 } else { form + i });
                if form % 2 == 0 { BodyElement::Block(b) } else { BodyElement::from(b) }
            }
        })
        .collect()
}

fn variant(e: &ME) -> &'static str {
    match e {
        ME::Null => "Null",
        ME::Num(_) => "Number",
        ME::Bool(_) => "Boolean",
        ME::Str(_) => "String",
        ME::Tuple(_) => "Tuple",
        ME::Object(_) => "Object",
    }
}

fn read_expr(e: &Expression<'static>, m: &ME) -> Result<(), String> {
    want("variant_name", e.variant_name() == variant(m), m)?;
    match (e, m) {
        (Expression::Tuple(t), ME::Tuple(v)) => {
            for (a, b) in t.iter().zip(v) {
                read_expr(a, b)?;
            }
        }
        (Expression::Object(t), ME::Object(v)) => {
            for ((k, a), (mk, b)) in t.iter().zip(v) {
                let text = match mk {
                    MK::Ident(t) => t.clone(),
                    MK::Expr(t) => spelled(t),
                };
                want("as_str", k.as_str() == text, mk)?;
                read_expr(a, b)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// What a key expression says.
fn spelled(t: &str) -> String {
    match refparse::expression(t) {
        Some(ME::Str(x)) => x,
        Some(ME::Num(x)) => x,
        Some(ME::Bool(b)) => b.to_string(),
        _ => t.to_string(),
    }
}

fn panics<T>(f: impl FnOnce() -> T) -> bool {
    guard(f).is_err()
}

fn read(b: &Body<'static>, m: &[MEl], refusals: bool) -> Result<(), String> {
    for (e, m) in b.iter().zip(m) {
        match m {
            MEl::Attr(k, v) => {
                want("is_attribute, is_block", e.is_attribute() && !e.is_block(), m)?;
                let (gk, gv) = e.clone().unwrap_attribute();
                want("unwrap_attribute", *gk == **k && expr(&gv) == *v, m)?;
                if refusals {
                    want("unwrap_block", panics(|| e.clone().unwrap_block()), m)?;
                }
                read_expr(&gv, v)?;
            }
            MEl::Block(mb) => {
                want("is_attribute, is_block", !e.is_attribute() && e.is_block(), m)?;
                let got = e.clone().unwrap_block();
                want("unwrap_block", block(&got) == *mb, m)?;
                if refusals {
                    want("unwrap_attribute", panics(|| e.clone().unwrap_attribute()), m)?;
                }
                for (l, ml) in got.labels.iter().zip(&mb.labels) {
                    want("the text of a label", l.as_str() == ml.text() && &*l.as_cow() == ml.text() && *l == ml.text(), ml)?;
                }
                read(&got.body, &mb.body, refusals)?;
            }
        }
    }
    Ok(())
}

/// A document built in code, against its model and the parse of its text.
fn built(m: &MBody, form: usize, refusals: bool, w: bool) -> Verdict {
    let text = plain(m);
    guard(|| -> Result<(), String> {
        let b = build(m, form);
        want("what is built", body(&b) == *m, m)?;
        read(&b, m, refusals)?;
        let p = fc::parse_str(&text).map_err(|e| format!("{:?} is not parsed: {}", clip(&text), e))?;
        want("the document that is built and the one that is parsed differ: equality", p == b && b == p, m)?;
        want("what is parsed", body(&p) == *m, m)?;
        let c = b.clone();
        want("a clone", c == b && body(&c) == *m, m)
    })?
    .map_err(|e| format!("{}\n  form {} of {:?}", e, form, clip(&text)))?;
    obs_with(hash(m), !m.is_empty(), w, || format!("form {}: {:?}", form, text))
}

const FORMS: usize = 12;

fn built_documents(n: usize) -> Family {
    Family::new("documents", &format!("all documents of up to {} elements nested 2 deep, built in each of {} mixes of constructors", n, FORMS), move |ch, w| {
        let m = gen::body(ch, &mut { n }, 2);
        let form = ch.choose(FORMS);
        ch.note(|| format!("form {} of {:?}", form, plain(&m)));
        built(&m, form, m.len() < 3, w)
    })
}

fn built_expressions(n: usize) -> Family {
    Family::new("expressions", &format!("all expressions of up to {} nodes, built in each of {} mixes of constructors", n, FORMS), move |ch, w| {
        let m = gen::expr(ch, &mut { n }, 3);
        let form = ch.choose(FORMS);
        let text = plain_expr(&m);
        ch.note(|| format!("form {} of {:?}", form, text));
        guard(|| -> Result<(), String> {
            let b = build_expr(&m, form);
            want("what is built", expr(&b) == m, &m)?;
            read_expr(&b, &m)?;
            let p = Expression::parse(&text).map_err(|e| format!("{:?} is not parsed: {}", clip(&text), e))?;
            want("equality of what is built with what is parsed", p == b && b == p && b.clone() == b, &m)
        })?
        .map_err(|e| format!("{}\n  form {} of {:?}", e, form, clip(&text)))?;
        obs_with(hash(&m), true, w, || format!("form {}: {:?}", form, text))
    })
}

fn listed() -> Family {
    let vals: Vec<ME> = gen::values().into_iter().map(|v| v.1).collect();
    let mut docs: Vec<MBody> = gen::seeds();
    for v in &vals {
        docs.push(vec![attr("a", v.clone()), blk("b", vec![lit("x y"), idl("é")], vec![attr("c", v.clone())])]);
        docs.push(vec![blk("b", vec![], vec![attr("c", v.clone()), blk("b", vec![], vec![])]), attr("b", ME::Tuple(vec![v.clone(), v.clone()]))]);
        docs.push(vec![attr("a", ME::Object(vec![(MK::Ident(s("k")), v.clone()), (MK::Expr(s("\"k\"")), v.clone()), (MK::Expr(s("(1)")), v.clone())]))]);
    }
    Family::new("listed", &format!("{} documents with all listed values, built in each of {} mixes of constructors", docs.len(), FORMS), move |ch, w| {
        let m = ch.pick(&docs).clone();
        let form = ch.choose(FORMS);
        ch.note(|| format!("form {} of {:?}", form, plain(&m)));
        built(&m, form, true, w)
    })
}

fn built_growth(big: bool) -> Family {
    let sizes = ramp::sizes(big);
    Family::new("growth", &format!("{} kinds of growth at {} sizes, built in two mixes of constructors", ramp::FLAT, sizes.len()), move |ch, w| {
        let k = ch.choose(ramp::FLAT);
        let n = *ch.pick(&sizes);
        let form = [0, 7][ch.choose(2)];
        let (_, m) = ramp::flat(k, n);
        ch.note(|| format!("kind {} size {} form {}", k, n, form));
        built(&m, form, false, w)
    })
}

/// Collecting from iterators that do not say how much they have.
fn iterators() -> Family {
    use crate::hints::*;
    Family::new("iterators", &format!("{} sizes of equal, repeated or different elements, by every collector from iterators of {} kinds of size hint", SIZES.len(), HINTS), |ch, w| {
        let n = *ch.pick(SIZES);
        let d = *ch.pick(&[1, 2, 1000]);
        let h = ch.choose(HINTS);
        ch.note(|| format!("{} elements of {} kinds, hint {}", n, d, h));
        let vals: Vec<ME> = (0..n).map(|i| if i % d % 3 == 2 { ME::Tuple(vec![st(&(i % d).to_string())]) } else { num(&(i % d).to_string()) }).collect();
        let items = || -> Vec<Expression<'static>> { vals.iter().map(|v| build_expr(v, 0)).collect() };
        let m = ME::Tuple(vals.clone());
        for (how, e) in [
            ("new_tuple", Expression::new_tuple(hinted(items(), h))),
            ("collect", hinted(items(), h).collect::<Expression>()),
            ("new_tuple of a chain", Expression::new_tuple(hinted(items(), 0).take(n / 2).chain(hinted(items().split_off(n / 2), h)))),
        ] {
            want(how, expr(&e) == m, &m)?;
        }
        let names: Vec<&'static str> = (0..n).map(|i| ["a", "b", "é", "a-1", "_"][i % d % 5]).collect();
        let m = ME::Object(names.iter().zip(&vals).map(|(k, v)| (MK::Ident(k.to_string()), v.clone())).collect());
        let pairs = || names.iter().cloned().zip(items()).collect::<Vec<_>>();
        for (how, e) in [
            ("new_object", Expression::new_object(hinted(pairs(), h))),
            ("new_object of keys", Expression::new_object(hinted(pairs().into_iter().map(|(k, v)| (Oei::Identifier(Cow::Owned(k.to_string())), v)).collect(), h))),
        ] {
            want(how, expr(&e) == m, &m)?;
        }
        obs_with(hash(&(n, d, h)), n > 0, w, || format!("{} {} {}", n, d, h))
    })
}

/// The text that a key of an object stands for.
fn object_keys(n: usize) -> Family {
    const PIECES: &[&str] = &["\"", "a", "1", ".", "-", " ", "(", ")", "true", "null", "[", "]", "\\n", "é", "<<E\nx\nE"];
    Family::new("object keys", &format!("every text of at most {} of {} pieces as the text of a key expression and of a key name", n, PIECES.len()), move |ch, w| {
        let t = gen::word(ch, PIECES, n);
        ch.note(|| t.clone());
        let exp = spelled(&t);
        guard(|| -> Result<(), String> {
            for k in [Oei::Expression(Cow::Borrowed(&t)), Oei::Expression(Cow::Owned(t.clone()))] {
                want(&format!("as_str ({:?})", k.as_str()), k.as_str() == exp, &k)?;
                want("equality with a text", !(k == t.as_str()) && !(k == exp.as_str()), &k)?;
            }
            for k in [Oei::Identifier(Cow::Borrowed(&*t)), Oei::Identifier(Cow::Owned(t.clone())), Oei::from(&*t)] {
                want(&format!("as_str ({:?})", k.as_str()), k.as_str() == t, &k)?;
                want("equality with a text", k == t.as_str(), &k)?;
            }
            Ok(())
        })??;
        obs_with(hash(&(exp == t, &exp)), exp != t, w, || format!("{:?} -> {:?}", t, exp))
    })
}

/// Native values as expressions.
fn natives() -> Family {
    macro_rules! ints {
        ($ch:expr, $k:expr, $x:expr, $($i:expr => $t:ty),*) => { match $k { $($i => { let v = $x as $t; (Expression::from(v), v.to_string(), ME::Num(v.to_string())) })* _ => unreachable!() } };
    }
    Family::new("native values", "integers of 10 types near every power of two, floats of two types on a grid of exponents and digits, booleans, unit and texts", |ch, w| {
        let k = ch.choose(13);
        let (e, text, m) = match k {
            0..=9 => {
                let bits = ch.choose(128);
                let x = (1u128 << bits).wrapping_add(ch.choose(7) as u128).wrapping_sub(3);
                let x = if ch.flag() { x.wrapping_neg() } else { x };
                ints!(ch, k, x, 0 => u8, 1 => u16, 2 => u32, 3 => u64, 4 => u128, 5 => i8, 6 => i16, 7 => i32, 8 => i64, 9 => i128)
            }
            10 => {
                let x = f64::from_bits(((ch.choose(2) as u64) << 63) | ((ch.choose(2047) as u64) << 52) | [0, 1, (1 << 52) - 1, 1 << 51, 0x5555555555555][ch.choose(5)]);
                (Expression::from(x), x.to_string(), ME::Num(x.to_string()))
            }
            11 => {
                let x = f32::from_bits(((ch.choose(2) as u32) << 31) | ((ch.choose(255) as u32) << 23) | [0, 1, (1 << 23) - 1, 1 << 22, 0x2aaaaa][ch.choose(5)]);
                (Expression::from(x), x.to_string(), ME::Num(x.to_string()))
            }
            _ => match ch.choose(5) {
                0 => (Expression::from(true), s("true"), ME::Bool(true)),
                1 => (Expression::from(false), s("false"), ME::Bool(false)),
                2 => (Expression::from(()), s("null"), ME::Null),
                3 => (Expression::from("é\n"), s("\"é\\n\""), st("é\n")),
                _ => (Expression::from(""), s("\"\""), st("")),
            },
        };
        ch.note(|| text.clone());
        read_expr(&e, &m)?;
        if let ME::Num(t) = &m {
            if !is_literal(t) {
                return Err(format!("engine: {} is no number", t));
            }
        }
        guard(|| -> Result<(), String> {
            let p = Expression::parse(&text).map_err(|e| format!("{} is not parsed: {}", text, e))?;
            want("equality with the parse of the text", p == e && e == p, &text)?;
            want(&format!("the text ({:?})", expr(&e)), expr(&e) == m, &text)
        })??;
        obs_with(hash_str(&text), true, w, || text.clone())
    })
}

pub const C32: Prop = Prop {
    id: "C32",
    rule: "an execution builds a document or a node through a mix of the public constructors and conversions, reads it back with every accessor, and compares it with the model and with the parse of the text that writes it; non-trivial: not empty",
    assumptions: &["documents are written by the harness's own writer"],
    families: |t| {
        vec![
            built_documents(if t { 5 } else { 4 }),
            built_expressions(if t { 6 } else { 5 }),
            listed(),
            built_growth(t),
            object_keys(if t { 6 } else { 5 }),
            iterators(),
            natives(),
        ]
    },
};

// ---------------------------------------------------------------- equality

/// What equality should look at: numbers by their value, labels by their text.
fn canon_expr(e: &ME) -> ME {
    match e {
        ME::Num(t) => ME::Num(worth(t)),
        ME::Tuple(v) => ME::Tuple(v.iter().map(canon_expr).collect()),
        ME::Object(v) => ME::Object(v.iter().map(|(k, x)| (k.clone(), canon_expr(x))).collect()),
        e => e.clone(),
    }
}
fn canon(b: &[MEl]) -> MBody {
    b.iter()
        .map(|e| match e {
            MEl::Attr(k, v) => MEl::Attr(k.clone(), canon_expr(v)),
            MEl::Block(b) => MEl::Block(MB { ty: b.ty.clone(), labels: b.labels.iter().map(|l| ML::Lit(l.text().to_string())).collect(), body: canon(&b.body) }),
        })
        .collect()
}

struct Doc {
    m: MBody,
    c: u64,
    canon: MBody,
    parsed: Body<'static>,
    built: Body<'static>,
}

fn doc(m: MBody) -> Option<Doc> {
    // what does not parse is the business of C02
    let text: &'static str = Box::leak(plain(&m).into_boxed_str());
    let parsed = guard(|| fc::parse_str(text)).ok()?.ok()?;
    let built = guard(|| build(&m, 5)).ok()?;
    let canon = canon(&m);
    Some(Doc { c: hash(&canon), canon, m, parsed, built })
}

fn pair(a: &Doc, b: &Doc, w: bool) -> Verdict {
    let exp = a.c == b.c && a.canon == b.canon;
    let got = guard(|| [a.parsed == b.parsed, b.parsed == a.parsed, a.built == b.parsed, a.parsed == b.built, a.built == b.built, !(a.parsed != b.parsed)])?;
    if got.iter().any(|g| *g != exp) {
        return Err(format!("equality gives {:?} instead of {} (parsed, reversed, built and parsed, parsed and built, built, not unequal)\n  {}\n  {}", got, exp, clip(&plain(&a.m)), clip(&plain(&b.m))));
    }
    let class = if exp { a.c } else { 0 };
    obs_with(class, exp, w, || format!("{:?} {} {:?}", plain(&a.m), if exp { "==" } else { "!=" }, plain(&b.m)))
}

fn doc_pairs(n: usize) -> Family {
    let pool: Arc<Vec<Doc>> = Arc::new(all(0, |ch| gen::body(ch, &mut { n }, 2)).into_iter().filter_map(doc).collect());
    Family::new("pairs of documents", &format!("all pairs of the {} documents of up to {} elements nested 2 deep", pool.len(), n), move |ch, w| {
        let a = ch.choose(pool.len());
        let b = ch.choose(pool.len());
        ch.note(|| format!("{:?} and {:?}", plain(&pool[a].m), plain(&pool[b].m)));
        pair(&pool[a], &pool[b], w)
    })
}

/// Expressions that differ in one thing from one another, in some spellings.
fn spellings() -> Vec<ME> {
    let mut v: Vec<ME> = vec![ME::Null, ME::Bool(true), ME::Bool(false), st(""), st("a"), st("A"), st("é"), st("e\u{301}"), st("1"), st("1.0"), st("null"), st("true"), st("a "), st(" a"), st("a\n"), st("a\0")];
    for t in ["0", "-0", "+0", "0.0", "-0.0e5", "1", "+1", "-1", "01", "1.0", "10", "10e-1", "0.1e1", "1e1", "1e0", "100E-2", "12", "1.2", "1.20", "12e-1", "1e20", "100000000000000000000", "9007199254740993", "9007199254740992", "9007199254740993.0", "18446744073709551616", "18446744073709551617", ".5", "0.5", "5e-1", "0.50000000000000000000000000001"] {
        v.push(num(t));
    }
    for n in [1usize, 8, 16, 17, 32, 64, 256] {
        for (a, b) in [("", ""), ("y", ""), ("", "y"), ("", "\0"), ("X", "")] {
            v.push(st(&format!("{}{}{}", a, "x".repeat(n), b)));
        }
        for (a, b) in [("1", ""), ("2", ""), ("", "1"), ("", "2"), ("-", "1"), ("0", "1"), (".", "1"), ("", ".1"), ("", "e1"), ("", ".0")] {
            v.push(num(&format!("{}{}{}", a, "3".repeat(n), b)));
        }
    }
    for t in ["1e-400", "1e-401", "1e400", "1e401", "-1e400", "4.9e-324", "5e-324", "0e400", "1e-20", "2e-20", "1.0000000000000000000001", "1e9223372036854775807", "1e9223372036854775806", "10e9223372036854775806"] {
        v.push(num(t));
    }
    let small = vec![num("1"), num("1.0"), st("1"), ME::Null, num("2")];
    for a in &small {
        v.push(ME::Tuple(vec![a.clone()]));
        v.push(obj(vec![("a", a.clone())]));
        v.push(ME::Object(vec![(MK::Expr(s("\"a\"")), a.clone())]));
        v.push(ME::Object(vec![(MK::Expr(s("a")), a.clone())]));
        for b in &small {
            v.push(ME::Tuple(vec![a.clone(), b.clone()]));
            v.push(obj(vec![("a", a.clone()), ("b", b.clone())]));
            v.push(obj(vec![("b", a.clone()), ("a", b.clone())]));
            v.push(obj(vec![("a", a.clone()), ("a", b.clone())]));
        }
    }
    v.push(ME::Tuple(vec![]));
    v.push(ME::Object(vec![]));
    v.push(ME::Tuple(vec![ME::Tuple(vec![])]));
    v.push(ME::Tuple(vec![ME::Object(vec![])]));
    v.push(ME::Tuple(vec![ME::Tuple(vec![num("1"), num("2")])]));
    v.push(ME::Tuple(vec![num("1"), ME::Tuple(vec![num("2")])]));
    v.push(ME::Tuple(vec![ME::Tuple(vec![num("1")]), num("2")]));
    for k in ["1", "1.0", "\"b\"", "(1)", "( 1 )", "\"\\x61\"", "true"] {
        v.push(ME::Object(vec![(MK::Expr(s(k)), num("1"))]));
    }
    v.push(ME::Object(vec![(MK::Ident(s("true")), num("1"))]));
    v.push(ME::Object(vec![(MK::Ident(s("a-b")), num("1"))]));
    v.push(ME::Object(vec![(MK::Ident(s("A")), num("1"))]));
    v
}

fn expr_pairs() -> Family {
    let pool: Arc<Vec<(ME, ME, Expression<'static>)>> = Arc::new(
        spellings()
            .into_iter()
            .filter_map(|m| {
                let b = guard(|| build_expr(&m, 0)).ok()?;
                Some((canon_expr(&m), m, b))
            })
            .collect(),
    );
    Family::new("pairs of expressions", &format!("all pairs of {} expressions that differ little or in their spelling, as they are and in 6 places of a larger document", pool.len()), move |ch, w| {
        let (a, b) = (&pool[ch.choose(pool.len())], &pool[ch.choose(pool.len())]);
        let place = ch.choose(7);
        ch.note(|| format!("{:?} and {:?} in place {}", a.1, b.1, place));
        let exp = a.0 == b.0;
        let put = |x: &Expression<'static>| -> Body<'static> {
            let at = |k: &'static str, x: Expression<'static>| BodyElement::Attribute((Cow::Borrowed(k), x));
            let x = x.clone();
            match place {
                1 => vec![at("a", x)],
                2 => vec![at("a", Expression::Null), at("b", Expression::Tuple(vec![Expression::Null, x, Expression::Null]))],
                3 => vec![BodyElement::Block(Block::new(Cow::Borrowed("b"), vec![BlockLabel::from("x")], vec![at("a", x), at("b", Expression::Null)]))],
                4 => vec![at("a", Expression::Object(vec![(Oei::from("k"), Expression::Null), (Oei::from("l"), x)])), at("b", Expression::Null)],
                5 => vec![BodyElement::Block(Block::new(Cow::Borrowed("b"), vec![], vec![])), BodyElement::Block(Block::new(Cow::Borrowed("b"), vec![], vec![BodyElement::Block(Block::new(Cow::Borrowed("c"), vec![], vec![at("a", x)]))]))],
                _ => (0..20).map(|i| if i == 16 { at("x", x.clone()) } else { at("y", Expression::from(i as u8)) }).collect(),
            }
        };
        let got = guard(|| if place == 0 { [a.2 == b.2, b.2 == a.2, !(a.2 != b.2)] } else { let (x, y) = (put(&a.2), put(&b.2)); [x == y, y == x, !(x != y)] })?;
        if got.iter().any(|g| *g != exp) {
            return Err(format!("equality gives {:?} instead of {} for {:?} and {:?} in place {}", got, exp, a.1, b.1, place));
        }
        obs_with(hash(&(&a.0, exp)), exp, w, || format!("{:?} {} {:?}", a.1, if exp { "==" } else { "!=" }, b.1))
    })
}

fn block_pairs() -> Family {
    let mut docs: Vec<MBody> = vec![];
    let label_lists: Vec<Vec<ML>> = {
        let one = [idl("x"), lit("x"), idl("y"), lit("X"), lit(""), lit("x y")];
        let mut v = vec![vec![]];
        for a in &one {
            v.push(vec![a.clone()]);
            for b in &one {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
        v.push(vec![idl("x"), idl("y"), idl("x")]);
        v
    };
    for ty in ["b", "B"] {
        for l in &label_lists {
            for body in [vec![], vec![attr("a", num("1"))], vec![attr("a", num("1.0"))]] {
                docs.push(vec![blk(ty, l.clone(), body)]);
            }
        }
    }
    for d in [
        vec![attr("b", num("1"))], vec![attr("b", ME::Object(vec![]))], vec![attr("b", obj(vec![("a", num("1"))]))],
        vec![blk("b", vec![], vec![]), blk("b", vec![], vec![])],
        vec![blk("b", vec![], vec![blk("b", vec![], vec![])])],
        vec![attr("a", num("1")), attr("b", num("2"))], vec![attr("b", num("2")), attr("a", num("1"))],
        vec![attr("a", num("1")), blk("b", vec![], vec![])], vec![blk("b", vec![], vec![]), attr("a", num("1"))],
        vec![attr("a", num("1")), attr("a", num("1"))], vec![attr("a", num("1"))], vec![attr("a", num("2"))], vec![attr("a-", num("1"))], vec![],
    ] {
        docs.push(d);
    }
    let pool: Arc<Vec<Doc>> = Arc::new(docs.into_iter().filter_map(doc).collect());
    Family::new("pairs of blocks", &format!("all pairs of {} documents of blocks that differ in type, labels, how the labels are written, or body", pool.len()), move |ch, w| {
        let (a, b) = (&pool[ch.choose(pool.len())], &pool[ch.choose(pool.len())]);
        ch.note(|| format!("{:?} and {:?}", plain(&a.m), plain(&b.m)));
        pair(a, b, w)
    })
}

/// Documents with a text that is easily mistaken for that of the other.
fn alike() -> Family {
    Family::new("alike", &format!("{}, each in the same place of two documents: a name, a type, a label, a key, a text", gen::alike_bound(4097)), |ch, w| {
        let kind = ch.choose(9);
        let (x, y) = gen::alike(ch, kind < 4, 4097);
        if x.contains('\t') || y.contains('\t') {
            return obs(0, false);
        }
        let make = |t: &str| -> MBody {
            match kind {
                0 => vec![attr(t, num("1")), attr("x", num("2"))],
                1 => vec![blk(t, vec![], vec![attr("x", num("2"))])],
                2 => vec![blk("b", vec![idl(t), lit("l")], vec![])],
                3 => vec![attr("o", ME::Object(vec![(MK::Ident(s(t)), num("1"))]))],
                4 => vec![blk("b", vec![lit("l"), lit(t)], vec![])],
                5 => vec![attr("o", ME::Object(vec![(MK::Expr(format!("\"{}\"", t)), num("1"))]))],
                6 => vec![attr("s", st(t)), attr("x", num("2"))],
                7 => vec![attr("s", ME::Tuple(vec![num("1"), st(t), num("2")]))],
                _ => vec![blk("b", vec![], vec![blk("c", vec![lit(t)], vec![attr("s", st(t))])])],
            }
        };
        ch.note(|| format!("{} {} {}", kind, clip(&x), clip(&y)));
        match (doc(make(&x)), doc(make(&y))) {
            (Some(a), Some(b)) => pair(&a, &b, w && x.len() < 100),
            _ => Err(format!("a document of {} or {} does not parse", clip(&x), clip(&y))),
        }
    })
}

/// Documents with a number that is written like that of the other.
fn alike_numbers() -> Family {
    Family::new("alike numbers", "numbers of up to 1025 digits, and the same with one digit changed, added or taken, with the point in 4 places, 3 exponents and signs, each in the same of 3 places of two documents", |ch, w| {
        let (x, y) = gen::alike_numbers(ch, 1025);
        let kind = ch.choose(3);
        let make = |t: &str| -> MBody {
            match kind {
                0 => vec![attr("a", num(t))],
                1 => vec![attr("a", ME::Tuple(vec![num("1"), num(t)]))],
                _ => vec![blk("b", vec![], vec![attr("o", obj(vec![("k", num(t)), ("l", num("1"))]))])],
            }
        };
        ch.note(|| format!("{} {} {}", kind, clip(&x), clip(&y)));
        match (doc(make(&x)), doc(make(&y))) {
            (Some(a), Some(b)) => pair(&a, &b, w && x.len() < 100),
            _ => Err(format!("a document of {} or {} does not parse", clip(&x), clip(&y))),
        }
    })
}

/// A large document against itself with one thing changed.
fn one_change(big: bool) -> Family {
    let sizes: Vec<usize> = ramp::sizes(big).into_iter().filter(|n| *n <= 4097).collect();
    Family::new("one change", &format!("documents of {} kinds of growth at {} sizes against a copy with one change of 5 kinds at the start, in the middle or at the end", ramp::FLAT, sizes.len()), move |ch, w| {
        let k = ch.choose(ramp::FLAT);
        let n = *ch.pick(&sizes);
        let (_, m) = ramp::flat(k, n);
        let mut c = m.clone();
        let place = ch.choose(3);
        let how = ch.choose(6);
        let i = [0, c.len() / 2, c.len().saturating_sub(1)][place];
        match (how, c.get_mut(i)) {
            (0, _) | (_, None) => {}
            (1, _) => {
                c.remove(i);
            }
            (2, Some(e)) => {
                let e = e.clone();
                c.insert(i, e);
            }
            (3, Some(MEl::Attr(k, _))) => k.push('z'),
            (3, Some(MEl::Block(b))) => b.ty.push('z'),
            (4, Some(MEl::Attr(_, v))) => deepest(v, place),
            (4, Some(MEl::Block(b))) => b.labels.push(lit("more")),
            (_, Some(MEl::Attr(_, v))) => *v = ME::Tuple(vec![v.clone()]),
            (_, Some(MEl::Block(b))) => b.body.push(attr("more", ME::Null)),
        }
        ch.note(|| format!("kind {} size {} place {} change {}", k, n, place, how));
        match (doc(m), doc(c)) {
            (Some(a), Some(b)) => pair(&a, &b, w).map_err(|e| format!("{}\n  kind {} size {} place {} change {}", e, k, n, place, how)),
            _ => obs(0, false),
        }
    })
}

fn deepest(e: &mut ME, place: usize) {
    match e {
        ME::Tuple(v) if !v.is_empty() => {
            let i = [0, v.len() / 2, v.len() - 1][place];
            deepest(&mut v[i], place)
        }
        ME::Object(v) if !v.is_empty() => {
            let i = [0, v.len() / 2, v.len() - 1][place];
            deepest(&mut v[i].1, place)
        }
        ME::Str(t) => {
            let i = [0, t.len() / 2, t.len()][place];
            let i = (i..=t.len()).find(|i| t.is_char_boundary(*i)).unwrap_or(0);
            t.insert(i, '!')
        }
        ME::Num(t) if t.len() > 2 && !t.contains('e') && !t.contains('E') => {
            *t = format!("1{}", t.trim_start_matches(|c| c == '-' || c == '+'));
        }
        e => *e = st("other"),
    }
}

// --- the older front-end

fn canon_value(v: &MV) -> MV {
    match v {
        MV::Float(f) if f64::from_bits(*f) == 0.0 => MV::Float(0),
        MV::List(l) => MV::List(l.iter().map(canon_value).collect()),
        MV::Object(o) => MV::Object(o.iter().map(canon_map).collect()),
        MV::Block(m, b) => {
            let mut v: Vec<_> = b.iter().map(|(l, m)| (l.clone(), canon_map(m))).collect();
            if *m {
                v.sort();
            }
            MV::Block(*m, v)
        }
        v => v.clone(),
    }
}
fn canon_map(m: &MM) -> MM {
    let mut entries: Vec<_> = m.entries.iter().map(|(k, v)| (k.clone(), canon_value(v))).collect();
    if m.merged {
        entries.sort();
    }
    MM { merged: m.merged, entries }
}

/// Scalars that are hard to tell apart: floats next to one another at every magnitude, integers
/// next to one another and to floats, texts that differ in one character at one end.
fn close_scalars() -> Vec<MV> {
    let mut v = Vec::new();
    for f in [0.0f64, 5e-324, 2.2250738585072014e-308, 1e-300, 1e-20, f64::EPSILON / 2.0, 1e-7, 0.1, 0.3, 1.0, 1.5, 10.0, 1e6, 16777216.0, 4503599627370496.0, 9007199254740992.0, 9223372036854775808.0, 1e20, 3.4028234663852886e38, 1e300, f64::MAX] {
        for g in [f.to_bits(), f.to_bits() + 1, f.to_bits().saturating_sub(1), (2.0 * f).to_bits()] {
            if !f64::from_bits(g).is_nan() {
                v.push(MV::Float(g));
                v.push(MV::Float((-f64::from_bits(g)).to_bits()));
            }
        }
    }
    for i in [0i64, 1, 10, 255, 256, 32768, 65536, 16777216, 1 << 31, 1 << 32, 1 << 53, i64::max_value()] {
        for d in [-1, 0, 1] {
            v.push(MV::Int(i.saturating_add(d)));
            v.push(MV::Int(0i64.saturating_sub(i.saturating_add(d))));
        }
    }
    v.push(MV::Int(i64::min_value()));
    for n in [1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257] {
        for (a, b) in [("", ""), ("y", ""), ("", "y"), ("", "\0"), ("", " "), (" ", ""), ("X", "")] {
            v.push(MV::Str(format!("{}{}{}", a, "x".repeat(n), b)));
        }
    }
    v
}

fn value_pairs(n: usize) -> Family {
    let mut models: Vec<MV> = all(0, |ch| values::value(ch, &mut { n }, 3));
    for f in [0.0f64, 1.0, 0.5, 1e300, f64::INFINITY] {
        models.push(MV::Float(f.to_bits()));
    }
    for t in ["", "a", "A", "1", "é"] {
        models.push(MV::Str(s(t)));
    }
    models.extend(close_scalars());
    let keyed = |merged: bool, ks: &[(&str, i64)]| MV::Object(vec![MM { merged, entries: ks.iter().map(|(k, v)| (s(k), MV::Int(*v))).collect() }]);
    for merged in [false, true] {
        for ks in [&[("a", 1), ("b", 2)][..], &[("b", 2), ("a", 1)], &[("a", 2), ("b", 1)], &[("a", 1)], &[("A", 1), ("b", 2)], &[("a", 1), ("b", 2), ("c", 3)]] {
            models.push(keyed(merged, ks));
        }
        for ls in [&["x", "y"][..], &["y", "x"], &["xy"], &["x", "y", ""], &[]] {
            for v in 1..3 {
                models.push(MV::Block(merged, vec![(ls.iter().map(|l| s(l)).collect(), MM { merged, entries: vec![(s("k"), MV::Int(v))] })]));
            }
        }
    }
    models.push(keyed(false, &[("a", 1), ("a", 1)]));
    models.sort();
    models.dedup();
    let pool: Arc<Vec<(MV, MV)>> = Arc::new(models.into_iter().map(|m| (canon_value(&m), m)).collect());
    Family::new("pairs of values", &format!("all pairs of {} values of the older front-end of up to {} nodes, merged or not, with quoted and bare keys", pool.len(), n), move |ch, w| {
        let a = &pool[ch.choose(pool.len())];
        let b = &pool[ch.choose(pool.len())];
        ch.note(|| format!("{:?} and {:?}", a.1, b.1));
        let exp = a.0 == b.0;
        let got = guard(|| {
            let (x, y, z) = (merging::build(&a.1, 0), merging::build(&b.1, 0), merging::build(&b.1, 1));
            let map = |v: &MV| merging::build_map(&MM { merged: false, entries: vec![(s("k"), v.clone())] }, 0);
            [x == y, y == x, x == z, !(x != y), map(&a.1) == map(&b.1)]
        })?;
        if got.iter().any(|g| *g != exp) {
            return Err(format!("equality gives {:?} instead of {} for {:?} and {:?}", got, exp, a.1, b.1));
        }
        obs_with(hash(&(&a.0, exp)), exp, w, || format!("{:?} {} {:?}", a.1, if exp { "==" } else { "!=" }, b.1))
    })
}

pub const C33: Prop = Prop {
    id: "C33",
    rule: "an execution takes two documents, expressions or values and compares their equality, both ways and between parsed and built ones, with the equality of their models (numbers by value, labels and keys by text, merged maps in any order); non-trivial: they are equal",
    assumptions: &["no NaN, which is unequal to itself"],
    families: |t| vec![doc_pairs(if t { 4 } else { 3 }), expr_pairs(), block_pairs(), one_change(t), alike(), alike_numbers(), value_pairs(if t { 4 } else { 3 })],
};
