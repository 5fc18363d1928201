//! C34: the error of a failed deserialization names its cause.
use super::accept;
use crate::explore::*;
use crate::gen::{self, attr, blk, num, obj, s, st};
use crate::model::*;
use crate::render::{plain, plain_expr};
use crate::target::*;
use crate::{refparse, Prop};
use fc::parser::Expression;
use fc::serde::de::Error;
use ferrous_chloride as fc;
use serde::de::value::{BoolDeserializer, F64Deserializer, I64Deserializer, MapAccessDeserializer, MapDeserializer, SeqDeserializer, StrDeserializer, U64Deserializer, UnitDeserializer};
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Fault {
    Parse,
    Body(String),
    Object(String),
    Tuple(usize, usize),
    Int,
    /// Any other error, whose text holds all of these.
    Other(Vec<String>),
}

impl Fault {
    fn is(&self, e: &Error) -> bool {
        let text = e.to_string();
        match (self, e) {
            (Fault::Parse, Error::ParseError(_)) => true,
            (Fault::Body(k), Error::BodyDuplicateKey(n)) => k == n && text.contains(&**k),
            (Fault::Object(k), Error::ObjectDuplicateKey(n)) => k == n && text.contains(&**k),
            (Fault::Tuple(x, a), Error::InvalidTupleLength { expected, actual }) => {
                x == expected && a == actual && text.contains(&x.to_string()) && text.contains(&a.to_string())
            }
            (Fault::Int, Error::ParseIntError(_)) => true,
            (Fault::Other(parts), Error::Custom(m)) => parts.iter().all(|p| m.contains(&**p)) && text.contains(&**m),
            _ => false,
        }
    }
}

/// The error that a text gives as a type.
type Get = fn(&str) -> Result<Option<Error>, String>;

fn of_file<T: DeserializeOwned>(text: &str) -> Result<Option<Error>, String> {
    guard(|| fc::from_str::<T>(text).err())
}
fn of_expr<T: DeserializeOwned>(text: &str) -> Result<Option<Error>, String> {
    guard(|| -> Result<Option<Error>, String> {
        match Expression::parse(text) {
            Ok(x) => Ok(match T::deserialize(x) {
                Ok(_) => None,
                Err(e) => {
                    let shown = e.to_string();
                    let e = Error::from(e);
                    if shown != e.to_string() {
                        return Err(format!("{:?} shows as {:?} while wrapped", e, shown));
                    }
                    Some(e)
                }
            }),
            Err(e) => Err(format!("{:?} does not parse: {:?}", clip(text), e)),
        }
    })?
}

fn check(text: &str, ty: &str, got: &Option<Error>, faults: &[Fault]) -> Result<u64, String> {
    match got {
        None if faults.is_empty() => Ok(1),
        None => Err(format!("{:?} as {} succeeds in spite of {}", clip(text), ty, clip(&format!("{:?}", faults)))),
        Some(e) if faults.iter().any(|f| f.is(e)) => Ok(2),
        Some(e) => Err(format!("{:?} as {} gives {:?} ({}), but the faults are {}", clip(text), ty, clip(&format!("{:?}", e)), clip(&e.to_string()), clip(&format!("{:?}", faults)))),
    }
}

// ---------------------------------------------------------------- names and numbers anywhere

fn twice<'a>(i: impl Iterator<Item = &'a String>) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    i.filter(|k| !seen.insert(k.to_string())).cloned().collect()
}

fn faults_of_expr(e: &ME, out: &mut Vec<Fault>) {
    match e {
        ME::Num(t) if !representable(t) => out.push(Fault::Int),
        ME::Tuple(v) => v.iter().for_each(|x| faults_of_expr(x, out)),
        ME::Object(v) => {
            let keys: Vec<String> = v.iter().map(|(k, _)| key_text(k)).collect();
            out.extend(twice(keys.iter()).into_iter().map(Fault::Object));
            v.iter().for_each(|(_, x)| faults_of_expr(x, out));
        }
        _ => {}
    }
}

fn faults_of_body(b: &[MEl], out: &mut Vec<Fault>) {
    let mut types = BTreeSet::new();
    let mut names: Vec<String> = vec![];
    for e in b {
        match e {
            MEl::Attr(k, v) => {
                names.push(k.clone());
                faults_of_expr(v, out);
            }
            MEl::Block(b) => {
                if types.insert(b.ty.clone()) {
                    names.push(b.ty.clone());
                }
                faults_of_body(&b.body, out);
            }
        }
    }
    out.extend(twice(names.iter()).into_iter().map(Fault::Body));
}

fn attr_value(ch: &mut Chooser) -> ME {
    let x = || num("1");
    let o = |v: Vec<(MK, ME)>| ME::Object(v);
    let id = |k: &str| MK::Ident(s(k));
    let ex = |k: &str| MK::Expr(s(k));
    match ch.choose(12) {
        0 => x(),
        1 => o(vec![(id("x"), x()), (id("x"), x())]),
        2 => o(vec![(id("x"), x()), (ex("\"x\""), st("s"))]),
        3 => o(vec![(id("p"), x()), (id("q"), x()), (id("y"), o(vec![(id("x"), x()), (id("z"), x()), (id("z"), x())]))]),
        4 => num("18446744073709551616"),
        5 => num("-9223372036854775809"),
        6 => ME::Tuple(vec![x(), o(vec![(ex("1"), x()), (ex("\"1\""), x())])]),
        7 => ME::Tuple(vec![st("s"), num("99999999999999999999")]),
        8 => o(vec![(id("x"), x()), (id("y"), x())]),
        9 => o(vec![(ex("true"), x()), (ex("\"true\""), x())]),
        10 => num("1e400"),
        _ => o(vec![(id("a"), o(vec![(id("a"), o(vec![(id("a"), x()), (id("b"), x()), (id("a"), x())]))]))]),
    }
}

fn faulty_body(ch: &mut Chooser, budget: &mut usize, depth: usize) -> MBody {
    let mut b = vec![];
    while *budget > 0 {
        let k = ch.choose(if depth > 0 { 5 } else { 3 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        let name = ["a", "b"][(k - 1) % 2];
        b.push(if k <= 2 { attr(name, attr_value(ch)) } else { blk(name, vec![], faulty_body(ch, budget, depth - 1)) });
    }
    b
}

fn anywhere(n: usize) -> Family {
    Family::new("names and numbers", &format!("all bodies of up to {} elements of 2 names nested 2 deep with 12 values, as a tree and as maps", n), move |ch, w| {
        let b = faulty_body(ch, &mut { n }, 2);
        let text = plain(&b);
        ch.note(|| text.clone());
        let mut faults = vec![];
        faults_of_body(&b, &mut faults);
        let mut class = 0;
        let gets: [(&str, Get); 3] = [("tree", of_file::<Tree>), ("map of trees", of_file::<BTreeMap<String, Tree>>), ("hash map of trees", of_file::<HashMap<String, Option<Tree>>>)];
        for (ty, get) in gets {
            class = class * 3 + check(&text, ty, &get(&text)?, &faults)?;
        }
        obs_with(hash(&(class, &faults)), !faults.is_empty(), w, || format!("{:?}: {:?}", text, faults))
    })
}

/// As written in quotes and as a name, if it is one.
fn all_names() -> Vec<String> {
    let mut names: Vec<String> = ["", " ", ".", "a.b", ".a", "a.", "a b", "a ", " a", "a:b", "a/b", "a=b", "a,b", "a'b", "a`b", "{}", "{0}", "${a}", "%s", "a\u{0}b", "é", "老", "e\u{301}", "😀", "日本.語", "A", "_", "a-b", "a_b", "a1", "1a", "1", "true", "null", "a#b", "//", "/*", "[0]", "<a>", "&amp;", "\u{feff}", "\t", "\u{2028}"]
        .iter()
        .map(|x| s(x))
        .collect();
    for n in [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 65537] {
        names.push("k".repeat(n));
        names.push((0..n).map(|i| ["a", ".", "é", "b-", "_"][i % 5]).collect());
    }
    names
}

fn is_a_name(name: &str) -> bool {
    refparse::config(&format!("{} = 1\n", name)).is_some() && !name.starts_with(char::is_whitespace) && !name.ends_with(char::is_whitespace) && !name.contains(&['#', '/'][..]) && !name.is_empty()
}

/// Names of all sorts, there twice.
fn texts_of_names() -> Family {
    let names = all_names();
    Family::new("texts of names", &format!("each of {} names twice in an object, plain, quoted and in parentheses, with others around it, and in a body and a block", names.len()), move |ch, w| {
        let name = ch.pick(&names);
        let ident = is_a_name(name);
        let kind = ch.choose(7);
        let q = || MK::Expr(format!("\"{}\"", name));
        let paren = || MK::Expr(format!("(\"{}\")", name));
        let plain_key = || MK::Ident(name.clone());
        if name.contains('\t') && kind < 3 {
            return obs(0, false);
        }
        let other = |i: usize| (MK::Ident(format!("z{}", i)), num("1"));
        let x = || num("1");
        let f = |v: Vec<(MK, ME)>| vec![attr("o", ME::Object(v))];
        let (b, f) = match kind {
            0 => (f(vec![other(0), (q(), x()), (q(), x()), other(1)]), Fault::Object(name.clone())),
            1 => (f(vec![(q(), x()), other(0), other(1), (paren(), ME::Null)]), Fault::Object(name.clone())),
            2 => (f(vec![other(0), (MK::Ident(s("n")), ME::Object(vec![(paren(), x()), (q(), x())]))]), Fault::Object(name.clone())),
            _ if !ident => return obs(0, false),
            3 => (f(vec![(plain_key(), x()), other(0), (q(), x())]), Fault::Object(name.clone())),
            4 => (vec![attr("z", x()), attr(name, x()), attr(name, x())], Fault::Body(name.clone())),
            5 => (vec![blk("z", vec![], vec![]), blk(name, vec![], vec![]), attr(name, x())], Fault::Body(name.clone())),
            _ => (vec![blk("z", vec![], vec![attr("y", x()), attr(name, x()), attr("x", x()), attr(name, ME::Null)])], Fault::Body(name.clone())),
        };
        let text = plain(&b);
        ch.note(|| clip(&text));
        for (ty, got) in [("a tree", of_file::<Tree>(&text)?), ("a map of trees", of_file::<BTreeMap<String, Tree>>(&text)?)] {
            check(&text, ty, &got, &[f.clone()])?;
        }
        obs_with(hash(&(kind, name)), true, w, || format!("{}: {}", clip(&text), clip(&format!("{:?}", f))))
    })
    .limit(120)
}

/// Names that are easily mistaken for one another: a repetition or not.
fn alike() -> Family {
    Family::new("alike", &format!("{}, as two names of a body, as a block and an attribute, and as two keys of an object, bare, quoted and one of each", gen::alike_bound(65537)), |ch, w| {
        let kind = ch.choose(6);
        let (x, y) = gen::alike(ch, kind < 4, 65537);
        if x.contains('\t') || y.contains('\t') {
            return obs(0, false);
        }
        let q = |k: &str| MK::Expr(format!("\"{}\"", k));
        let i = |k: &str| MK::Ident(s(k));
        let o = |a, b| vec![attr("o", ME::Object(vec![(a, num("1")), (b, num("2"))]))];
        let m = match kind {
            0 => vec![attr(&x, num("1")), attr(&y, num("2"))],
            1 => vec![blk(&x, vec![], vec![]), attr(&y, num("2"))],
            2 => o(i(&x), i(&y)),
            3 => o(i(&x), q(&y)),
            4 => o(q(&x), q(&y)),
            _ => vec![attr("t", ME::Tuple(vec![ME::Object(vec![(q(&x), num("1")), (i("z0"), num("0")), (q(&y), num("2"))])]))],
        };
        let text = plain(&m);
        ch.note(|| clip(&text));
        let mut faults = vec![];
        faults_of_body(&m, &mut faults);
        for (ty, got) in [("a tree", of_file::<Tree>(&text)?), ("a map of trees", of_file::<HashMap<String, Tree>>(&text)?)] {
            check(&text, ty, &got, &faults)?;
        }
        obs_with(hash(&(kind, x == y, x.len(), y.len())), !faults.is_empty(), w, || clip(&text))
    })
}

/// Many names, one of which is there again at every distance.
fn far(sizes: Vec<usize>) -> Family {
    Family::new("far apart", &format!("bodies, objects, block bodies and nested objects of {} sizes where any name is repeated at the end", sizes.len()), move |ch, w| {
        let n = *ch.pick(&sizes);
        let i = ch.choose(n);
        let kind = ch.choose(5);
        let name = |i: usize| format!("n{}", i);
        let attrs = || (0..n).map(|k| attr(&name(k), num("1"))).chain(Some(attr(&name(i), num("2")))).collect::<Vec<_>>();
        let entries = || ME::Object((0..n).map(|k| (MK::Ident(name(k)), num("1"))).chain(Some((MK::Expr(format!("\"{}\"", name(i))), num("2")))).collect());
        let (b, f) = match kind {
            0 => (attrs(), Fault::Body(name(i))),
            1 => (vec![attr("o", entries())], Fault::Object(name(i))),
            2 => (vec![blk("b", vec![], vec![]), blk("b", vec![], attrs())], Fault::Body(name(i))),
            3 => (vec![attr("t", ME::Tuple(vec![entries()]))], Fault::Object(name(i))),
            _ => {
                let mut v: Vec<MEl> = (0..n).map(|k| blk(&name(k), vec![], vec![])).collect();
                v.insert(i, attr(&name(i), num("1")));
                (v, Fault::Body(name(i)))
            }
        };
        let text = plain(&b);
        ch.note(|| clip(&text));
        check(&text, "tree", &of_file::<Tree>(&text)?, &[f.clone()])?;
        obs_with(hash(&(kind, n, i)), true, w, || format!("{}: {:?}", clip(&text), f))
    })
}

// ---------------------------------------------------------------- tuples

#[derive(Deserialize)]
#[allow(dead_code)]
struct T2(u8, u8);
#[derive(Deserialize)]
#[allow(dead_code)]
struct T3(u8, u8, u8);
#[derive(Deserialize)]
#[allow(dead_code)]
struct T5(u8, u8, u8, u8, u8);
#[derive(Deserialize)]
#[allow(dead_code)]
struct In<T> {
    a: Option<u8>,
    x: T,
}

fn in_place<T: DeserializeOwned>(place: usize, v: &ME) -> (String, Result<Option<Error>, String>) {
    let t = plain_expr(v);
    match place {
        0 => {
            let r = of_expr::<T>(&t);
            (t, r)
        }
        1 => {
            let t = format!("x = {}\n", t);
            let r = of_file::<In<T>>(&t);
            (t, r)
        }
        2 => {
            let t = format!("b {{\n x = {}\n}}\nb {{\n x = {}\n a = 1\n}}\n", t, t);
            let r = of_file::<BTreeMap<String, Vec<In<T>>>>(&t);
            (t, r)
        }
        3 => {
            let t = format!("{{ k = {{ x = {} }}, l = {{ x = {}, a = null }} }}", t, t);
            let r = of_expr::<BTreeMap<String, In<Option<T>>>>(&t);
            (t, r)
        }
        _ => {
            let t = format!("[[{}, 1]]", t);
            let r = of_expr::<Vec<(T, u8)>>(&t);
            (t, r)
        }
    }
}

type InPlace = fn(usize, &ME) -> (String, Result<Option<Error>, String>);

fn tuples(n: usize) -> Family {
    const TARGETS: &[(usize, InPlace)] = &[
        (1, in_place::<(u8,)>),
        (2, in_place::<(u8, u8)>),
        (3, in_place::<(u8, u8, u8)>),
        (4, in_place::<(u8, u8, u8, u8)>),
        (6, in_place::<(u8, u8, u8, u8, u8, u8)>),
        (9, in_place::<(u8, u8, u8, u8, u8, u8, u8, u8, u8)>),
        (2, in_place::<T2>),
        (3, in_place::<T3>),
        (5, in_place::<T5>),
        (3, in_place::<[u8; 3]>),
        (7, in_place::<[u8; 7]>),
        (32, in_place::<[u8; 32]>),
    ];
    Family::new("tuples", &format!("tuples of up to {} elements as {} types of tuple, tuple struct and array in 5 places", n, TARGETS.len()), move |ch, w| {
        let len = ch.choose(n + 1);
        let (arity, get) = ch.pick(TARGETS);
        let place = ch.choose(5);
        let v = ME::Tuple((0..len).map(|i| num(&(i % 256).to_string())).collect());
        let (text, got) = get(place, &v);
        ch.note(|| clip(&text));
        let faults = if len == *arity { vec![] } else { vec![Fault::Tuple(*arity, len)] };
        let r = check(&text, &format!("a tuple of {}", arity), &got?, &faults)?;
        obs_with(hash(&(r, arity, len, place)), r == 2, w, || clip(&text))
    })
}

/// Two tuples, one of them or both of a wrong length.
fn two_tuples() -> Family {
    Family::new("two tuples", "pairs of tuples of up to 6 elements as list of pairs, as pair of triples and as struct of a pair and a triple", |ch, w| {
        let (i, j) = (ch.choose(7), ch.choose(7));
        let kind = ch.choose(4);
        let t = |n: usize| ME::Tuple((0..n).map(|i| num(&i.to_string())).collect());
        let wrong = |x: usize, a: usize| if x == a { None } else { Some(Fault::Tuple(x, a)) };
        let (text, got, faults) = match kind {
            0 => {
                let x = plain_expr(&ME::Tuple(vec![t(i), t(j)]));
                let r = of_expr::<Vec<(u8, u8)>>(&x);
                (x, r, [wrong(2, i), wrong(2, j)])
            }
            1 => {
                let x = plain_expr(&ME::Tuple(vec![t(i), t(j)]));
                let r = of_expr::<(T3, (u8, u8, u8))>(&x);
                (x, r, [wrong(3, i), wrong(3, j)])
            }
            2 => {
                let x = plain(&[attr("a", t(i)), attr("x", t(j))]);
                #[derive(Deserialize)]
                #[allow(dead_code)]
                struct S {
                    a: T2,
                    x: T3,
                }
                let r = of_file::<S>(&x);
                (x, r, [wrong(2, i), wrong(3, j)])
            }
            _ => {
                let x = plain_expr(&obj(vec![("a", t(i)), ("b", ME::Tuple(vec![t(j)]))]));
                #[derive(Deserialize)]
                #[allow(dead_code)]
                struct S {
                    a: T2,
                    b: ([u8; 4],),
                }
                let r = of_expr::<S>(&x);
                (x, r, [wrong(2, i), wrong(4, j)])
            }
        };
        ch.note(|| text.clone());
        let faults: Vec<Fault> = faults.iter().flatten().cloned().collect();
        let r = check(&text, "two tuples", &got?, &faults)?;
        obs_with(hash(&(r, kind, &faults)), r == 2, w, || text.clone())
    })
}

// ---------------------------------------------------------------- scalars

fn bounds<T>(min: &str, max: &str) -> (String, String, String) {
    (min.into(), max.into(), std::any::type_name::<T>().into())
}

fn numbers() -> Family {
    macro_rules! ints {
        ($($t:ty)*) => { vec![$((bounds::<$t>(&<$t>::MIN.to_string(), &<$t>::MAX.to_string()), in_place::<$t> as InPlace)),*] };
    }
    let targets = ints![i8 i16 i32 i64 u8 u16 u32 u64];
    let mut texts: Vec<String> = vec![];
    for bits in [0u32, 1, 7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 100] {
        for d in -2i128..=2 {
            for x in [(1i128 << bits) + d, -(1i128 << bits) + d] {
                texts.push(x.to_string());
                if x > 0 {
                    texts.push(format!("+{}", x));
                    texts.push(format!("000{}", x));
                } else {
                    texts.push(format!("-00{}", -x));
                }
            }
        }
    }
    texts.push("9".repeat(80));
    texts.push(format!("-{}", "9".repeat(80)));
    texts.sort();
    texts.dedup();
    Family::new("numbers", &format!("{} integers near the bounds of types as {} types in 5 places", texts.len(), targets.len()), move |ch, w| {
        let text = ch.pick(&texts);
        let ((min, max, name), get) = ch.pick(&targets);
        let place = ch.choose(5);
        let (doc, got) = get(place, &num(text));
        ch.note(|| doc.clone());
        let faults = if !representable(text) {
            vec![Fault::Int]
        } else {
            let v: i128 = text.parse().map_err(|_| "engine: no number".to_string())?;
            let (lo, hi): (i128, i128) = (min.parse().unwrap(), max.parse().unwrap());
            if v < lo || v > hi {
                vec![Fault::Other(vec![v.to_string(), name.clone()])]
            } else {
                vec![]
            }
        };
        let r = check(&doc, name, &got?, &faults)?;
        obs_with(hash(&(r, name, &faults)), r == 2, w, || doc.clone())
    })
}

/// What serde itself says of a value of this kind as `T`.
fn serde_says<T: DeserializeOwned>(e: &ME) -> Option<String> {
    type E = serde::de::value::Error;
    let r: Result<T, E> = match e {
        ME::Null => {
            let d: UnitDeserializer<E> = ().into_deserializer();
            T::deserialize(d)
        },
        ME::Bool(b) => {
            let d: BoolDeserializer<E> = b.into_deserializer();
            T::deserialize(d)
        }
        ME::Str(x) => {
            let d: StrDeserializer<E> = x.as_str().into_deserializer();
            T::deserialize(d)
        }
        ME::Num(t) if is_float(t) => {
            let d: F64Deserializer<E> = t.parse::<f64>().unwrap().into_deserializer();
            T::deserialize(d)
        }
        ME::Num(t) if t.starts_with('-') => {
            let d: I64Deserializer<E> = t.parse::<i64>().unwrap().into_deserializer();
            T::deserialize(d)
        }
        ME::Num(t) => {
            let d: U64Deserializer<E> = t.trim_start_matches('+').parse::<u64>().unwrap().into_deserializer();
            T::deserialize(d)
        }
        // the wrong kind has to show before what is inside is looked at
        ME::Tuple(v) => T::deserialize(SeqDeserializer::<_, E>::new(vec![1u8; v.len()].into_iter())),
        ME::Object(v) => T::deserialize(MapAccessDeserializer::new(MapDeserializer::<_, E>::new(v.iter().map(|(k, _)| (key_text(k), 1u8))))),
    };
    r.err().map(|e| e.to_string())
}

type Says = fn(&ME) -> Option<String>;

/// A value of a wrong kind.
fn kinds() -> Family {
    macro_rules! kinds {
        ($($t:ty => $k:expr),* $(,)?) => { &[$((stringify!($t), $k, in_place::<$t> as InPlace, serde_says::<$t> as Says)),*] };
    }
    // with the kinds that are right in part (their contents may still be wrong)
    static TARGETS: &[(&str, &str, InPlace, Says)] = kinds![
        bool => "b", u8 => "n", i64 => "n", f32 => "n", f64 => "n", char => "", String => "s", () => "0", Unit => "0",
        Vec<u8> => "t", Vec<String> => "t", BTreeSet<bool> => "t", BTreeMap<String, u8> => "o", HashMap<String, Vec<u8>> => "o", In<u8> => "ot",
        (u8, u8) => "t", T3 => "t", [u8; 2] => "t",
    ];
    let values: Vec<(ME, &str)> = vec![
        (ME::Null, "0"),
        (ME::Bool(true), "b"),
        (ME::Bool(false), "b"),
        (num("0"), "n"),
        (num("7"), "n"),
        (num("+7"), "n"),
        (num("-7"), "n"),
        (num("255"), "n"),
        (num("18446744073709551615"), "n"),
        (num("-9223372036854775808"), "n"),
        (num("1.5"), "f"),
        (num("-2.25e3"), "f"),
        (num("1e0"), "f"),
        (st(""), "s"),
        (st("x"), "s"),
        (st("xy"), "s"),
        (st("7"), "s"),
        (st("null"), "s"),
        (st("é\u{1f600}\n"), "s"),
        (st("a\"b"), "s"),
        (ME::Tuple(vec![]), "t"),
        (ME::Tuple(vec![num("1"), num("2")]), "t"),
        (ME::Object(vec![]), "o"),
        (obj(vec![("x", num("1"))]), "o"),
        (obj(vec![("k", st("v")), ("l", ME::Null)]), "o"),
    ];
    Family::new("kinds", &format!("{} values of all kinds as {} types in 5 places, against what serde says of them", values.len(), TARGETS.len()), move |ch, w| {
        let (v, kind) = ch.pick(&values);
        let (name, right, get, says) = ch.pick(TARGETS);
        let place = ch.choose(5);
        // the place makes it an option
        if place == 3 && *kind == "0" || right.contains(kind) && *kind != "n" {
            return obs(0, false);
        }
        let (doc, got) = get(place, v);
        ch.note(|| doc.clone());
        let faults = match says(v) {
            None => vec![],
            Some(m) => match m.split_once(", expected ") {
                Some((a, b)) => vec![Fault::Other(vec![a.to_string(), b.to_string()])],
                None => vec![Fault::Other(vec![m])],
            },
        };
        let r = check(&doc, name, &got?, &faults)?;
        obs_with(hash(&(r, &faults)), r == 2, w, || format!("{:?} as {}: {:?}", doc, name, faults))
    })
}

// ---------------------------------------------------------------- fields

#[derive(Deserialize)]
#[allow(dead_code)]
struct Loose {
    a: u8,
    b: Option<u8>,
    c: u8,
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Strict {
    a: u8,
    b: Option<u8>,
    #[serde(default)]
    c: u8,
}

fn fields(n: usize) -> Family {
    Family::new("fields", &format!("all lists of up to {} of 5 names as the attributes of a file, of a block, of blocks, and as the keys of an object, for a struct that ignores unknown fields and one that refuses them", n), move |ch, w| {
        let len = ch.choose(n + 1);
        let names: Vec<String> = (0..len).map(|_| s(ch.pick(&["a", "b", "c", "d", "aa"]))).collect();
        let strict = ch.flag();
        let place = ch.choose(5);
        let again = twice(names.iter());
        let has = |k: &str| names.iter().any(|n| n == k);
        let mut faults: Vec<Fault> = again.iter().cloned().map(if place >= 3 { Fault::Object } else { Fault::Body }).collect();
        for k in ["a", "c"] {
            if !has(k) && !(strict && k == "c") {
                faults.push(Fault::Other(vec![format!("missing field `{}`", k)]));
            }
        }
        for k in ["d", "aa"] {
            if strict && has(k) {
                faults.push(Fault::Other(vec![format!("unknown field `{}`", k)]));
            }
        }
        let body: MBody = names.iter().map(|k| attr(k, num("1"))).collect();
        let object = ME::Object(names.iter().map(|k| (MK::Ident(k.clone()), num("1"))).collect());
        fn get<T: DeserializeOwned>(place: usize, body: MBody, object: ME) -> (String, Result<Option<Error>, String>) {
            match place {
                0 => {
                    let t = plain(&body);
                    let r = of_file::<T>(&t);
                    (t, r)
                }
                1 => {
                    let t = plain(&[blk("x", vec![], body)]);
                    let r = of_file::<In<T>>(&t);
                    (t, r)
                }
                2 => {
                    let t = plain(&[blk("x", vec![], body.clone()), blk("x", vec![], body)]);
                    let r = of_file::<In<Vec<T>>>(&t);
                    (t, r)
                }
                3 => {
                    let t = plain_expr(&object);
                    let r = of_expr::<T>(&t);
                    (t, r)
                }
                _ => {
                    let t = plain(&[attr("x", ME::Tuple(vec![object.clone(), object]))]);
                    let r = of_file::<In<Vec<T>>>(&t);
                    (t, r)
                }
            }
        }
        let (text, got) = if strict { get::<Strict>(place, body, object) } else { get::<Loose>(place, body, object) };
        ch.note(|| text.clone());
        let r = check(&text, if strict { "a strict struct" } else { "a struct" }, &got?, &faults)?;
        obs_with(hash(&(r, strict, place, &faults)), r == 2, w, || format!("{:?}: {:?}", text, faults))
    })
}

/// A type that refuses every text with an error of its own.
#[derive(Debug)]
struct Refuses;
impl<'de> Deserialize<'de> for Refuses {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        Err(serde::de::Error::custom(format!("refused: <{}>", t)))
    }
}

/// What serde, or a type, says about a text of any sort.
fn messages(t: bool) -> Family {
    let mut names = all_names();
    let sizes: Vec<usize> = crate::ramp::sizes(t).into_iter().filter(|n| *n <= 70000).collect();
    names.extend(sizes.iter().map(|n| "n".repeat(*n)));
    Family::new("messages", &format!("each of {} texts as a field that is not known in 4 places, as a value of another kind in 5, and as one that its type refuses in 5", names.len()), move |ch, w| {
        let name = ch.pick(&names);
        let kind = ch.choose(14);
        let x = || num("1");
        if name.contains('\t') {
            return obs(0, false);
        }
        let unknown = Fault::Other(vec![format!("unknown field `{}`, expected one of `a`, `b`, `c`", name)]);
        let value = || st(name);
        let at = |k: usize| match k {
            0 => plain_expr(&value()),
            1 => plain(&[attr("x", value())]),
            2 => plain(&[attr("x", ME::Tuple(vec![value(), value()]))]),
            3 => plain(&[blk("x", vec![], vec![attr("x", value())])]),
            _ => plain(&[attr("x", ME::Object(vec![(MK::Ident(s("k")), value())]))]),
        };
        let strict = || ME::Object(vec![(MK::Ident(s("a")), x()), (MK::Expr(format!("\"{}\"", name)), x())]);
        let (text, got, f) = match kind {
            0 | 1 if !is_a_name(name) => return obs(0, false),
            0 => {
                let t = plain(&[attr("a", x()), attr(name, x())]);
                let r = of_file::<Strict>(&t)?;
                (t, r, unknown)
            }
            1 => {
                let t = plain(&[blk("x", vec![], vec![attr("a", x()), blk(name, vec![], vec![])])]);
                let r = of_file::<In<Strict>>(&t)?;
                (t, r, unknown)
            }
            2 => {
                let t = plain_expr(&strict());
                let r = of_expr::<Strict>(&t)?;
                (t, r, unknown)
            }
            3 => {
                let t = plain(&[attr("x", ME::Tuple(vec![strict()]))]);
                let r = of_file::<In<Vec<Strict>>>(&t)?;
                (t, r, unknown)
            }
            _ => {
                let refused = kind >= 9;
                let k = (kind - 4) % 5;
                let t = at(k);
                let r = match (k, refused) {
                    (0, false) => of_expr::<u8>(&t),
                    (0, true) => of_expr::<Refuses>(&t),
                    (1, false) => of_file::<In<u8>>(&t),
                    (1, true) => of_file::<In<Refuses>>(&t),
                    (2, false) => of_file::<In<Vec<u8>>>(&t),
                    (2, true) => of_file::<In<Vec<Refuses>>>(&t),
                    (3, false) => of_file::<In<In<u8>>>(&t),
                    (3, true) => of_file::<In<In<Refuses>>>(&t),
                    (_, false) => of_file::<In<BTreeMap<String, u8>>>(&t),
                    (_, true) => of_file::<In<BTreeMap<String, Refuses>>>(&t),
                }?;
                let m = if refused { format!("refused: <{}>", name) } else { format!("invalid type: string {:?}, expected u8", name) };
                (t, r, Fault::Other(vec![m]))
            }
        };
        ch.note(|| clip(&text));
        check(&text, "its type", &got, &[f])?;
        obs_with(hash(&(kind, name)), true, w, || format!("{}: {}", clip(&text), clip(&format!("{:?}", got))))
    })
    .limit(120)
}

// ---------------------------------------------------------------- texts that do not parse

fn parse_check(t: &str, w: bool) -> Verdict {
    let model = refparse::config(t);
    let gets: [(&str, Get); 5] = [
        ("tree", of_file::<Tree>),
        ("map of trees", of_file::<BTreeMap<String, Tree>>),
        ("struct", of_file::<Loose>),
        ("bool", of_file::<bool>),
        ("list", of_file::<Vec<u8>>),
    ];
    for (ty, get) in gets {
        let got = get(t)?;
        match (&model, &got) {
            (None, Some(e)) if Fault::Parse.is(e) => {}
            (None, _) => return Err(format!("{:?} does not parse, but gives {:?} as {}", clip(t), got, ty)),
            (Some(_), Some(e)) if Fault::Parse.is(e) => return Err(format!("{:?} parses, but gives {:?} as {}", clip(t), e, ty)),
            _ => {}
        }
    }
    obs_with(hash_str(if model.is_some() { t } else { "" }), model.is_none(), w, || format!("{:?} {}", t, model.is_some()))
}

fn texts(n: usize) -> Family {
    const WORDS: &[&str] = &["a", "=", "1", "99999999999999999999", "\"x\"", "\"", "\\", "\n", " ", "{", "}", "[", "]", ",", "a = 1\n", "b \"l\" {}\n", "c {\n", "# c", "é"];
    Family::new("texts", &format!("all words of up to {} of {} tokens as 5 types", n, WORDS.len()), move |ch, w| {
        let t = gen::word(ch, WORDS, n);
        ch.note(|| t.clone());
        parse_check(&t, w)
    })
}

fn cut() -> Family {
    let docs: Arc<Vec<String>> = Arc::new(accept::texts());
    Family::new("cut texts", &format!("each of {} texts cut at every character, with each of 8 ends", docs.len()), move |ch, w| {
        let d = ch.pick(&docs);
        let ends: Vec<usize> = d.char_indices().map(|(i, _)| i).chain(Some(d.len())).collect();
        let at = *ch.pick(&ends);
        let t = format!("{}{}", &d[..at], ch.pick(&["", "\n", "}", "\"", "]\n", "}\n", "= 1\n", "é"]));
        ch.note(|| t.clone());
        parse_check(&t, w)
    })
}

pub const C34: Prop = Prop {
    id: "C34",
    rule: "an execution deserializes a text as a type and compares the error with the faults that the document has for the type; non-trivial: it has one",
    assumptions: &["where a document has several faults, the error may name any of them", "the wording of errors about kinds, fields and ranges is serde's own; the pinned version of serde is the oracle for it"],
    families: |t| {
        vec![
            anywhere(if t { 5 } else { 4 }),
            far(if t { vec![1, 2, 3, 5, 8, 16, 17, 32, 33, 64, 65, 128, 129, 200, 257, 600] } else { vec![1, 2, 3, 5, 8, 16, 17, 33, 65, 130] }),
            texts_of_names(),
            messages(t),
            alike(),
            tuples(if t { 300 } else { 70 }),
            two_tuples(),
            numbers(),
            kinds(),
            fields(if t { 6 } else { 5 }),
            texts(if t { 6 } else { 5 }),
            cut(),
        ]
    },
};
