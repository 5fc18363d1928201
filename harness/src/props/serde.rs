//! C22 scalars, C23 collections, C24 blocks and C25 totality of deserializing.
use super::keys::key;
use super::numbers::is_literal;
use super::{accept, total};
use crate::explore::*;
use crate::gen::{self, *};
use crate::model::*;
use crate::render::{plain, plain_expr};
use crate::target::*;
use crate::{ramp, refparse, Prop};
use fc::parser::Expression;
use ferrous_chloride as fc;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Debug;

fn judge<T: Target, E: Debug>(text: &str, n: &Node, r: Result<T, E>) -> Result<u64, String> {
    let ty = || std::any::type_name::<T>().replace("fcmc::target::", "").replace("alloc::", "").replace("core::", "");
    match (T::v(n), r) {
        (V::Fail, Ok(x)) => Err(format!("{:?} as {} should be an error but gives {}", clip(text), ty(), clip(&format!("{:?}", x)))),
        (V::Must, Err(e)) => Err(format!("{:?} as {} fails: {}", clip(text), ty(), clip(&format!("{:?}", e)))),
        (_, Err(_)) => Ok(1),
        (_, Ok(x)) => {
            if x.m(n) {
                Ok(2)
            } else {
                Err(format!("{:?} as {} gives {}", clip(text), ty(), clip(&format!("{:?}", x))))
            }
        }
    }
}

/// A configuration file as a type; `None` when it is not to parse.
fn file<T: Target>(text: &str, b: Option<&MBody>) -> Result<u64, String> {
    let r = guard(|| fc::from_str::<T>(text)).map_err(|e| format!("{:?} as {}: {}", clip(text), std::any::type_name::<T>(), e))?;
    match (b, r) {
        (None, Ok(x)) => Err(format!("{:?} does not parse but gives {}", clip(text), clip(&format!("{:?}", x)))),
        (None, Err(_)) => Ok(0),
        (Some(b), r) => judge(text, &Node::Body(b), r),
    }
}

/// An expression as a type.
fn expr<T: Target>(text: &str, e: &ME) -> Result<u64, String> {
    let r = guard(|| match Expression::parse(text) {
        Ok(x) => T::deserialize(x).map_err(|e| format!("{:?}", e)),
        Err(e) => Err(format!("it does not parse: {:?}", e)),
    })
    .map_err(|e| format!("{:?} as {}: {}", clip(text), std::any::type_name::<T>(), e))?;
    judge(text, &Node::E(e), r)
}

type FileCheck = fn(&str, Option<&MBody>) -> Result<u64, String>;
type ExprCheck = fn(&str, &ME) -> Result<u64, String>;

fn files(checks: &[FileCheck], text: &str, b: &MBody) -> Result<(u64, bool), String> {
    let mut h = 0u64;
    let mut ok = false;
    for c in checks {
        let r = c(text, Some(b))?;
        ok |= r == 2;
        h = h.wrapping_mul(3).wrapping_add(r);
    }
    Ok((h, ok))
}
fn exprs(checks: &[ExprCheck], text: &str, e: &ME) -> Result<(u64, bool), String> {
    let mut h = 0u64;
    let mut ok = false;
    for c in checks {
        let r = c(text, e)?;
        ok |= r == 2;
        h = h.wrapping_mul(3).wrapping_add(r);
    }
    Ok((h, ok))
}

// ---------------------------------------------------------------- scalars

const PLACES: usize = 12;

/// A value in a place, as a type made of `T`.
fn place<T: Target + Default + PartialEq>(k: usize, v: &str, eol: bool, e: &ME) -> Result<u64, String> {
    let e = e.clone();
    let nl = if eol { "\n" } else { "" };
    let pair = format!("[{}{}, {}{}]", v, nl, v, nl);
    match k {
        0 => expr::<T>(&if eol { format!("({}\n)", v) } else { v.to_string() }, &e),
        1 => file::<BTreeMap<String, T>>(&format!("x = {}\n", v), Some(&vec![attr("x", e)])),
        2 => file::<One<T>>(&format!("y = 1\nx = {}\nz = [{{}}]\n", v), Some(&vec![attr("y", num("1")), attr("x", e), attr("z", ME::Tuple(vec![ME::Object(vec![])]))])),
        3 => expr::<Vec<T>>(&pair, &ME::Tuple(vec![e.clone(), e])),
        4 => expr::<(T, T)>(&pair, &ME::Tuple(vec![e.clone(), e])),
        5 => expr::<Pair<T, Option<T>>>(&pair, &ME::Tuple(vec![e.clone(), e])),
        6 => file::<HashMap<String, One<T>>>(&format!("y = {{ x = {}\n }}\n", v), Some(&vec![attr("y", obj(vec![("x", e)]))])),
        7 => file::<BTreeMap<String, One<T>>>(&format!("b {{\n x = {}\n}}\n", v), Some(&vec![blk("b", vec![], vec![attr("x", e)])])),
        8 => file::<BTreeMap<String, Vec<BTreeMap<String, T>>>>(
            &format!("b {{\n x = {}\n}}\nb {{\n y = {}\n}}\n", v, v),
            Some(&vec![blk("b", vec![], vec![attr("x", e.clone())]), blk("b", vec![], vec![attr("y", e)])]),
        ),
        9 => expr::<W<T>>(&format!("( {}{} )", v, nl), &e),
        10 => file::<One<Option<T>>>(&format!("x = {}\n", v), Some(&vec![attr("x", e)])),
        _ => file::<One<Box<W<Option<T>>>>>(&format!("x = {}\n", v), Some(&vec![attr("x", e)])),
    }
}

type PlaceCheck = fn(usize, &str, bool, &ME) -> Result<u64, String>;
macro_rules! places {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), place::<$t>)),*] };
}
const TARGETS: &[(&str, PlaceCheck)] = places![
    bool, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, char, String, Cow<'static, str>, Box<str>, (), Unit,
    Option<u8>, Option<String>, Option<()>, W<u16>, Option<Option<i8>>, Vec<u8>, Vec<String>, BTreeMap<String, u8>, Tree,
    Option<Vec<Option<u8>>>, Option<BTreeMap<String, Option<u8>>>, Option<Unit>, Option<bool>, Option<f64>, W<Option<Vec<Unit>>>,
];
macro_rules! expr_checks {
    ($($t:ty),* $(,)?) => { &[$(expr::<$t>),*] };
}
const SCALARS: &[ExprCheck] = expr_checks![
    bool, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, char, String, (), Option<u8>, Option<f64>, W<i16>, Tree, Un,
];

fn boundaries() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for bits in [7u32, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127] {
        for d in -2i128..=2 {
            let x = if bits == 127 { i128::MAX - 2 + d } else { (1i128 << bits) + d };
            v.push(x.to_string());
            v.push((-x).to_string());
        }
    }
    for x in [u128::MAX, u128::MAX - 1] {
        v.push(x.to_string());
    }
    v.push("340282366920938463463374607431768211456".into());
    v.push(i128::MIN.to_string());
    v.push("170141183460469231731687303715884105728".into());
    v.push("9".repeat(60));
    v.push(format!("-{}", "9".repeat(60)));
    for z in ["0", "-0", "+0", "00", "-00", "+1", "007", "-007", "+0042", "0000000000000000000000000000000000001", "-0000000000000000000000128"] {
        v.push(z.into());
    }
    v
}

fn floats() -> Vec<String> {
    let mut v: Vec<String> = [
        "0.0", "-0.0", "+0.0", ".0", "-.0", "0.", "0e0", "-0e5", "1.0", "-1.0", "1.", ".1", "0.1", "0.2", "0.30000000000000004", "1e1", "1e+1", "1e-1", "1E5", "1.5E-5",
        "1e22", "1e23", "8.5e22", "123456789012345678.0", "9007199254740993.0", "9007199254740992.5", "4503599627370497.5", "16777217.0", "16777216.5", "1e38", "3.4028234e38",
        "3.4028235e38", "3.4028236e38", "3.5e38", "1e39", "1e300", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e309", "-1e309", "1e400",
        "4.9e-324", "2.4e-324", "2.5e-324", "2e-324", "1e-400", "2.2250738585072014e-308", "2.2250738585072011e-308", "1.4e-45", "7e-46", "1.1754944e-38", "1e-46",
        "3.141592653589793238462643383279502884197169399375105820974944592307816406286", "1e0000000000000000000005", "1e-0000000000000000000005", "0.000000000000000000000000000001",
        "1000000000000000000000.0", "18446744073709551616.0", "-9223372036854775809.0", "255.0", "256.0", "1.9", "-1.9", "0.9", "65535.5", "1e18", "1e19", "1e2",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push(format!("0.{}1", "0".repeat(400)));
    v.push(format!("{}.0", "1".repeat(310)));
    v.push(format!("0.1{}", "0".repeat(300)));
    v.push(format!("1.00000005960464477539062500{}1", "0".repeat(40)));
    v.push("1.000000059604644775390625".to_string());
    v.push("1.00000017881393432617187499".to_string());
    v
}

fn scalar_values() -> Vec<(String, ME, bool)> {
    let mut v = gen::values();
    for b in boundaries().into_iter().chain(floats()) {
        v.push((b.clone(), num(&b), false));
    }
    for t in ["a", "é", "老", "😀", "aa", "a\u{301}", "\u{0}", "\u{feff}", "0", "-1", "1.5", "true", "null", "[1]", "{}", " ", "", "\n", "\t", "\"", "\\", "e\n"] {
        v.push((crate::render::quote(t), st(t), false));
    }
    for (t, e) in [
        ("[null]", ME::Tuple(vec![ME::Null])),
        ("[[null]]", ME::Tuple(vec![ME::Tuple(vec![ME::Null])])),
        ("[null, null]", ME::Tuple(vec![ME::Null, ME::Null])),
        ("[\"\"]", ME::Tuple(vec![st("")])),
        ("[false]", ME::Tuple(vec![ME::Bool(false)])),
        ("[0]", ME::Tuple(vec![num("0")])),
        ("{ a = null }", obj(vec![("a", ME::Null)])),
        ("{ a = [null] }", obj(vec![("a", ME::Tuple(vec![ME::Null]))])),
        ("\"null\"", st("null")),
    ] {
        v.push((t.to_string(), e, false));
    }
    for (t, x) in [("\"\\n\"", "\n"), ("\"\\u00e9\"", "é"), ("\"\\U0001F600\"", "😀"), ("\"\\x41\"", "A"), ("\"\\101\"", "A"), ("\"\\\\\"", "\\"), ("(\"a\")", "a"), ("( 'a' )", "")] {
        if !x.is_empty() {
            v.push((t.to_string(), st(x), false));
        }
    }
    v
}

fn grid() -> Family {
    let vals = scalar_values();
    Family::new("values", &format!("each of {} values in each of {} places as each of {} types", vals.len(), PLACES, TARGETS.len()), move |ch, w| {
        let (t, e, eol) = ch.pick(&vals);
        let k = ch.choose(PLACES);
        let ty = ch.pick(TARGETS);
        ch.note(|| format!("{:?} in place {} as {}", t, k, ty.0));
        let r = ty.1(k, t, *eol, e)?;
        obs_with(r, r == 2, w, || format!("{} in place {} as {}: {}", t, k, ty.0, if r == 2 { "read" } else { "rejected" }))
    })
}

fn number_words(n: usize) -> Family {
    Family::new("numbers", &format!("every number written with at most {} of 0 1 9 . e - + as each of {} types", n, SCALARS.len()), move |ch, w| {
        let s = gen::word(ch, &["0", "1", "9", ".", "e", "-", "+"], n);
        if !is_literal(&s) {
            return obs(0, false);
        }
        ch.note(|| s.clone());
        let (h, ok) = exprs(SCALARS, &s, &num(&s))?;
        obs_with(h, ok, w, || s.clone())
    })
}

fn integers_near(n: usize) -> Family {
    Family::new("integers", &format!("every integer at most {} from a power of two up to 2^128, with and without a minus sign, as each of {} types", n, SCALARS.len()), move |ch, w| {
        let bits = ch.range(0, 127);
        let d = ch.range(0, 2 * n) as i128 - n as i128;
        let neg = ch.flag();
        let x = if d < 0 { (1u128 << bits).saturating_sub(d.unsigned_abs()) } else { (1u128 << bits) + d as u128 };
        let s = format!("{}{}", if neg { "-" } else { "" }, x);
        ch.note(|| s.clone());
        let (h, ok) = exprs(SCALARS, &s, &num(&s))?;
        obs_with(h, ok, w, || s.clone())
    })
}

fn small_integers(lo: i64, hi: i64) -> Family {
    Family::new("small integers", &format!("every integer from {} to {} as each of {} types", lo, hi, SCALARS.len()), move |ch, w| {
        let a = ch.choose((((hi - lo) / 1000) + 1) as usize) as i64;
        let b = ch.choose(1000) as i64;
        let s = (lo + a * 1000 + b).to_string();
        let (h, ok) = exprs(SCALARS, &s, &num(&s))?;
        obs_with(h, ok, w, || s.clone())
    })
}

fn every_char() -> Family {
    Family::new("characters", "every Unicode scalar as a string of one, of two, and after a letter, as 6 types", |ch, w| {
        const CHECKS: &[ExprCheck] = expr_checks![char, String, Cow<'static, str>, Option<char>, (), Tree];
        let i = ch.choose(total::scalars());
        let c = total::scalar(i);
        let s = match ch.choose(3) {
            0 => c.to_string(),
            1 => format!("{}{}", c, c),
            _ => format!("a{}", c),
        };
        let t = crate::render::quote(&s);
        let (h, ok) = exprs(CHECKS, &t, &st(&s))?;
        obs_with(h, ok, w, || t.clone())
    })
}

/// A Rust value as an expression and back.
fn native() -> Family {
    macro_rules! back {
        ($v:expr, $t:ty) => {{
            let x: $t = $v;
            let r = guard(|| <$t>::deserialize(Expression::from(x.clone())).map_err(|e| format!("{:?}", e)))?;
            match r {
                Ok(y) if y == x => Ok(2),
                // serde has 64 bits here
                Err(_) if !representable(&x.to_string()) => Ok(1),
                r => Err(format!("{:?} as an expression deserializes as {:?}", x, r)),
            }
        }};
    }
    let mut ints: Vec<i128> = vec![];
    for bits in 0..127 {
        for d in -2..=2 {
            ints.push((1i128 << bits) + d);
            ints.push(-(1i128 << bits) + d);
        }
    }
    ints.extend([i128::MIN, i128::MIN + 1, i128::MAX, i128::MAX - 1]);
    let floats: Vec<f64> = floats().iter().filter_map(|s| s.parse().ok()).filter(|f: &f64| f.is_finite()).collect();
    Family::new("native values", "integers near powers of two, floats, characters and booleans as expressions and back, as the types they fit", move |ch, w| {
        let (name, r): (String, Result<u64, String>) = match ch.choose(4) {
            0 => {
                let x = *ch.pick(&ints);
                let t = ch.choose(10);
                ch.note(|| format!("{} {}", x, t));
                macro_rules! int {
                    ($t:ty) => {
                        match <$t>::try_from(x) {
                            Ok(x) => back!(x, $t),
                            Err(_) => Ok(0),
                        }
                    };
                }
                let r = match t {
                    0 => int!(i8),
                    1 => int!(i16),
                    2 => int!(i32),
                    3 => int!(i64),
                    4 => int!(i128),
                    5 => int!(u8),
                    6 => int!(u16),
                    7 => int!(u32),
                    8 => int!(u64),
                    _ => int!(u128),
                };
                (x.to_string(), r)
            }
            1 => {
                let f = *ch.pick(&floats);
                (f.to_string(), back!(f, f64))
            }
            2 => {
                let f = *ch.pick(&floats) as f32;
                (f.to_string(), if f.is_finite() { back!(f, f32) } else { Ok(0) })
            }
            _ => {
                if ch.flag() {
                    let b = ch.flag();
                    (b.to_string(), back!(b, bool))
                } else {
                    let s = ch.pick(&["", "a", "é\n\"", "1", "null"]).to_string();
                    {
                        let r = match guard(|| String::deserialize(Expression::from(s.as_str())).map_err(|e| format!("{:?}", e)))? {
                            Ok(t) if t == s => Ok(2),
                            r => Err(format!("{:?} as an expression deserializes as {:?}", s, r)),
                        };
                        (s.clone(), r)
                    }
                }
            }
        };
        let r = r?;
        obs_with(r, r == 2, w, || name.clone())
    })
}

fn keys_as_text(n: usize) -> Family {
    Family::new("keys", &format!("every word of at most {} letters as a key of the older front-end, as 6 types", n), move |ch, w| {
        let s = gen::word(ch, &["a", "b", "1", "é", " ", "\"", "\\"], n);
        let form = ch.choose(6);
        ch.note(|| format!("{:?} form {}", s, form));
        let e = st(&s);
        let node = Node::E(&e);
        macro_rules! one {
            ($t:ty) => {
                judge::<$t, _>(&s, &node, guard(|| <$t>::deserialize(key(&s, form)))?)?
            };
        }
        let r = [one!(String), one!(char), one!(Box<str>), one!(u8), one!(bool), one!(Vec<u8>)];
        obs_with(r.iter().fold(0, |a, b| a * 3 + b), true, w, || s.clone())
    })
}

pub const C22: Prop = Prop {
    id: "C22",
    rule: "an execution deserializes one value as one type in one place (families over numbers: as each of 23 types) and compares with what the literal and the type say: the value, an error, or either where the property leaves it open; non-trivial: some type takes the value",
    assumptions: &["the standard library's conversion of text to a float gives the nearest one", "single precision may be reached through double precision", "integers that fit the type but not 64 bits may be an error"],
    families: |t| {
        vec![
            grid(),
            number_words(if t { 6 } else { 5 }),
            integers_near(if t { 40 } else { 5 }),
            if t { small_integers(-70_000, 69_999) } else { small_integers(-2000, 1999) },
            every_char(),
            native(),
            keys_as_text(if t { 5 } else { 4 }),
        ]
    },
};

// ---------------------------------------------------------------- collections

macro_rules! file_checks {
    ($($t:ty),* $(,)?) => { &[$(file::<$t>),*] };
}

type TreeMap = BTreeMap<String, Tree>;

const MAPS: &[FileCheck] = file_checks![
    Tree,
    Ordered<Tree>,
    HashMap<String, Tree>,
    BTreeMap<char, Tree>,
    BTreeMap<Letter, u8>,
    BTreeMap<String, Option<u8>>,
    HashMap<String, W<Tree>>,
    BTreeMap<String, Vec<u8>>,
    BTreeMap<String, (u8, u8)>,
    Ordered<OneA<u8>>,
    BTreeMap<String, BTreeMap<String, u8>>,
    None0,
    OneA<u8>,
    OneAStrict<Option<Tree>>,
    Ab<Tree, Tree>,
    Ab<u8, String>,
    Ab<Option<Tree>, Option<Tree>>,
    AbStrict<Tree, Tree>,
    AbStrict<Option<u8>, Option<Vec<u8>>>,
    AbDefault<u8, Tree>,
    Abc<Tree, Tree, Tree>,
    Abc<Option<Tree>, Box<Tree>, Option<Option<u8>>>,
    AbcStrict<Option<Tree>, Option<Tree>, Option<Tree>>,
    Rest,
    Un,
];

const MAPS_E: &[ExprCheck] = expr_checks![
    Tree,
    Ordered<Tree>,
    HashMap<String, Tree>,
    BTreeMap<Letter, Tree>,
    Option<TreeMap>,
    W<TreeMap>,
    BTreeMap<String, Option<u8>>,
    BTreeMap<String, OneA<u8>>,
    None0,
    OneA<Tree>,
    AbStrict<Tree, Tree>,
    Ab<Option<u8>, Option<Tree>>,
    AbDefault<u8, Tree>,
    AbcStrict<Option<Tree>, Option<Tree>, Option<Tree>>,
    Rest,
    Un,
    Vec<Tree>,
    (Tree, Tree),
    String,
];

fn kinds() -> Vec<ME> {
    vec![
        num("1"),
        st("s"),
        ME::Null,
        ME::Tuple(vec![num("1"), num("2")]),
        obj(vec![("a", num("1"))]),
        obj(vec![("a", num("1")), ("a", num("1"))]),
    ]
}

fn bodies(max: usize, names: &'static [&'static str]) -> Family {
    let kinds = kinds();
    Family::new(
        &format!("bodies of {} names", names.len()),
        &format!("all bodies of at most {} attributes over {} names and {} values, as each of {} types", max, names.len(), kinds.len(), MAPS.len()),
        move |ch, w| {
            let mut b = vec![];
            for _ in 0..max {
                let k = ch.choose(names.len() * kinds.len() + 1);
                if k == 0 {
                    break;
                }
                b.push(attr(names[(k - 1) / kinds.len()], kinds[(k - 1) % kinds.len()].clone()));
            }
            let t = plain(&b);
            ch.note(|| t.clone());
            let (h, ok) = files(MAPS, &t, &b)?;
            obs_with(h, ok, w, || t.clone())
        },
    )
}

fn objects(max: usize) -> Family {
    let keys = [
        MK::Ident(s("a")), MK::Expr(s("\"a\"")), MK::Ident(s("b")), MK::Expr(s("(\"b\")")), MK::Expr(s("\"\\x61\"")), MK::Ident(s("true")), MK::Expr(s("(true)")), MK::Expr(s("1")), MK::Expr(s("(1)")),
    ];
    let vals = [num("1"), ME::Null];
    Family::new("objects", &format!("all objects of at most {} entries over {} keys and {} values, as each of {} types", max, keys.len(), vals.len(), MAPS_E.len()), move |ch, w| {
        let mut o = vec![];
        for _ in 0..max {
            let k = ch.choose(keys.len() * vals.len() + 1);
            if k == 0 {
                break;
            }
            o.push((keys[(k - 1) / vals.len()].clone(), vals[(k - 1) % vals.len()].clone()));
        }
        let e = ME::Object(o);
        let t = plain_expr(&e);
        ch.note(|| t.clone());
        let (h, ok) = exprs(MAPS_E, &t, &e)?;
        obs_with(h, ok, w, || t.clone())
    })
}

const SEQS: &[ExprCheck] = expr_checks![
    Tree,
    Vec<Tree>,
    Vec<u8>,
    Vec<Option<u8>>,
    VecDeque<Tree>,
    BTreeSet<String>,
    Option<Vec<Tree>>,
    W<Vec<Tree>>,
    Box<Vec<Box<Tree>>>,
    (Tree,),
    (u8, Tree),
    (Tree, Tree, Option<u8>),
    (Tree, Tree, Tree, Tree),
    [Tree; 2],
    [u8; 3],
    Pair<Tree, Tree>,
    Pair<u8, Option<String>>,
    Option<Pair<Tree, Tree>>,
    OneA<Tree>,
    Ab<Tree, Tree>,
    AbStrict<Tree, Tree>,
    Abc<Tree, Tree, Tree>,
    AbDefault<Tree, Tree>,
    Vec<(u8, u8)>,
    Vec<Vec<u8>>,
    Un,
    TreeMap,
    String,
    (),
];

fn tuples(max: usize) -> Family {
    let kinds = [num("1"), st("s"), ME::Null, ME::Tuple(vec![num("1"), num("2")])];
    Family::new("tuples", &format!("all tuples of at most {} elements of {} kinds, as each of {} types", max, kinds.len(), SEQS.len()), move |ch, w| {
        let mut v = vec![];
        for _ in 0..max {
            let k = ch.choose(kinds.len() + 1);
            if k == 0 {
                break;
            }
            v.push(kinds[k - 1].clone());
        }
        let e = ME::Tuple(v);
        let t = plain_expr(&e);
        ch.note(|| t.clone());
        let (h, ok) = exprs(SEQS, &t, &e)?;
        obs_with(h, ok, w, || t.clone())
    })
}

fn nested(budget: usize) -> Family {
    const CHECKS: &[ExprCheck] = expr_checks![Tree, Un, Vec<Tree>, Ordered<Tree>, Vec<Vec<Tree>>, BTreeMap<String, Vec<Tree>>, BTreeMap<String, TreeMap>, (Vec<Tree>, Tree), Option<Vec<Option<Tree>>>];
    Family::new("nested", &format!("all expressions of at most {} nodes, as each of {} types", budget, CHECKS.len()), move |ch, w| {
        let mut b = budget;
        let e = gen::expr(ch, &mut b, 4);
        let t = plain_expr(&e);
        ch.note(|| t.clone());
        let (h, ok) = exprs(CHECKS, &t, &e)?;
        obs_with(h, ok, w, || t.clone())
    })
}

fn growth(big: bool) -> Family {
    const CHECKS: &[FileCheck] = file_checks![Tree, Ordered<Tree>, HashMap<String, Tree>, BTreeMap<String, Vec<Tree>>, HashMap<String, String>, BTreeMap<String, TreeMap>, Rest];
    let mut sizes = ramp::sizes(false);
    if big {
        sizes.extend([2000, 2047, 2048, 2049, 4095, 4096, 4097]);
    }
    Family::new("growth", &format!("{} kinds of growth at {} sizes up to {}, as each of {} types", ramp::FLAT, sizes.len(), sizes[sizes.len() - 1], CHECKS.len()), move |ch, w| {
        let n = *ch.pick(&sizes);
        let k = ch.choose(ramp::FLAT);
        let (t, b) = ramp::flat(k, n);
        ch.note(|| clip(&t));
        let (h, ok) = files(CHECKS, &t, &b)?;
        obs_with(h, ok, w, || format!("growth {} of size {}", k, n))
    })
    .limit(120)
}

fn large(big: bool) -> Family {
    const CHECKS: &[FileCheck] = file_checks![Tree, HashMap<String, Tree>, BTreeMap<String, Vec<Tree>>];
    let sizes = ramp::large(big);
    Family::new("large", &format!("{} kinds of growth at {} sizes up to {}, as each of {} types", ramp::FLAT, sizes.len(), sizes[sizes.len() - 1], CHECKS.len()), move |ch, w| {
        let k = ch.choose(ramp::FLAT);
        let n = *ch.pick(&sizes) / if ramp::SLOW.contains(&k) { 4 } else { 1 };
        if k == 4 || k == 5 {
            // many labels nest deep
            return obs(0, false);
        }
        let (t, b) = ramp::flat(k, n);
        ch.note(|| clip(&t));
        let (h, ok) = files(CHECKS, &t, &b)?;
        obs_with(h, ok, w, || format!("growth {} of size {}", k, n))
    })
    .limit(400)
}

/// Many different names, of which one may be there again.
fn repeats(big: bool) -> Family {
    const F: &[FileCheck] = file_checks![Tree, HashMap<String, Tree>, Ordered<Tree>];
    let sizes: Vec<usize> = ramp::sizes(big).into_iter().filter(|n| *n > 0 && *n <= 4097).collect();
    Family::new("repeats", &format!("bodies, objects, blocks in bodies and objects in tuples of {} sizes of different names, one of which, at the start, in the middle or at the end, is there again in one of these places, or none is", sizes.len()), move |ch, w| {
        let n = *ch.pick(&sizes);
        let which = *ch.pick(&[0, n / 2, n - 1]);
        let to = ch.choose(5);
        let kind = ch.choose(5);
        let mut at: Vec<usize> = (0..n).collect();
        if to < 4 {
            at.insert([0, n / 2, n.saturating_sub(1), n][to], which);
        }
        let name = |i: &usize| format!("n{}", i);
        let attrs = || at.iter().map(|i| attr(&name(i), num(&i.to_string()))).collect::<MBody>();
        let entries = |q: bool| ME::Object(at.iter().map(|i| (if q { MK::Expr(format!("\"{}\"", name(i))) } else { MK::Ident(name(i)) }, num(&i.to_string()))).collect());
        let b = match kind {
            0 => attrs(),
            1 => vec![attr("o", entries(false))],
            2 => vec![attr("o", entries(true))],
            3 => vec![blk("b", vec![], attrs())],
            _ => vec![attr("t", ME::Tuple(vec![num("1"), entries(false)]))],
        };
        let t = plain(&b);
        ch.note(|| clip(&t));
        let (h, ok) = files(F, &t, &b)?;
        obs_with(h ^ n as u64, ok, w, || format!("{} names, {} again at {}", n, which, to))
    })
}

/// Names that are easily mistaken for one another.
fn alike(kinds: &'static [usize]) -> Family {
    const F: &[FileCheck] = file_checks![Tree, HashMap<String, Tree>, Ordered<Tree>, BTreeMap<String, Opt<Vec<Tree>>>];
    Family::new("alike", &format!("{}, as names of attributes, types of blocks, both in turn, and as keys of an object, bare and quoted, with one there twice or not", gen::alike_bound(4097)), move |ch, w| {
        let kind = *ch.pick(kinds);
        let (x, y) = gen::alike(ch, kind != 5, 4097);
        let again = ch.flag();
        if kind == 5 && (x.contains('\t') || y.contains('\t')) {
            return obs(0, false);
        }
        let names: Vec<&String> = if again { vec![&x, &y, &x] } else { vec![&x, &y] };
        let a = |i: usize| attr(names[i], num(&i.to_string()));
        let b = |i: usize| blk(names[i], vec![], vec![attr("c", num(&i.to_string()))]);
        let all = 0..names.len();
        let entry = |i: usize| (if kind == 5 { MK::Expr(format!("\"{}\"", names[i])) } else { MK::Ident(names[i].clone()) }, num(&i.to_string()));
        let m: MBody = match kind {
            0 => all.map(a).collect(),
            1 => all.map(b).collect(),
            2 => all.map(|i| if i % 2 == 0 { a(i) } else { b(i) }).collect(),
            3 => vec![blk("k", vec![], all.map(|i| if i == 1 { a(i) } else { b(i) }).collect())],
            _ => vec![attr("o", ME::Object(all.map(entry).collect()))],
        };
        let t = plain(&m);
        ch.note(|| clip(&t));
        let (h, ok) = files(F, &t, &m)?;
        obs_with(h ^ (kind * 2 + again as usize) as u64, ok, w, || clip(&t))
    })
}

/// Tuples and objects of each length, as types of fixed and free length.
fn lengths(max: usize) -> Family {
    const CHECKS: &[ExprCheck] = expr_checks![Vec<u16>, Vec<Tree>, Tree, VecDeque<Option<u16>>, (u16, u16, u16), [u16; 3], Pair<u16, u16>, Abc<u16, u16, u16>, Ab<u16, u16>];
    Family::new("lengths", &format!("tuples of every length up to {}, as each of {} types", max, CHECKS.len()), move |ch, w| {
        let n = ch.range(0, max);
        let e = ME::Tuple((0..n).map(|i| num(&(i * 7).to_string())).collect());
        let t = plain_expr(&e);
        let (h, ok) = exprs(CHECKS, &t, &e)?;
        obs_with(h, ok, w, || format!("tuple of {}", n))
    })
}

fn value_grid() -> Family {
    let vals = gen::values();
    Family::new("values", &format!("each of {} values twice in a body and in a tuple, as each of {} types", vals.len(), MAPS.len() + SEQS.len()), move |ch, w| {
        let (t, e, eol) = ch.pick(&vals);
        if ch.flag() {
            let text = format!("a = {}\nb = {}\n", t, t);
            ch.note(|| text.clone());
            let (h, ok) = files(MAPS, &text, &vec![attr("a", e.clone()), attr("b", e.clone())])?;
            obs_with(h, ok, w, || text.clone())
        } else {
            let nl = if *eol { "\n" } else { "" };
            let text = format!("[{}{}, {}{}]", t, nl, t, nl);
            ch.note(|| text.clone());
            let (h, ok) = exprs(SEQS, &text, &ME::Tuple(vec![e.clone(), e.clone()]))?;
            obs_with(h, ok, w, || text.clone())
        }
    })
}

pub const C23: Prop = Prop {
    id: "C23",
    rule: "an execution generates a document or an expression and deserializes it as each type of a list, comparing each result with what the model says: the value, an error, or either where the property leaves it open; non-trivial: some type takes it",
    assumptions: &["serde's own implementations for the standard containers and its derive macros are right"],
    families: |t| {
        vec![
            bodies(if t { 5 } else { 4 }, &["a", "b", "c"]),
            bodies(if t { 6 } else { 4 }, &["a", "b"]),
            objects(if t { 5 } else { 4 }),
            tuples(if t { 8 } else { 6 }),
            nested(if t { 6 } else { 5 }),
            lengths(if t { 2100 } else { 300 }),
            growth(t),
            large(t),
            repeats(t),
            alike(&[0, 2, 4, 5]),
            value_grid(),
        ]
    },
};

// ---------------------------------------------------------------- blocks

type Opt<T> = Option<T>;
type Vt = Vec<Tree>;

const BLOCKS: &[FileCheck] = file_checks![
    Tree,
    Ordered<Tree>,
    HashMap<String, Tree>,
    BTreeMap<String, Vec<Tree>>,
    BTreeMap<String, Vec<TreeMap>>,
    BTreeMap<String, Vec<Vec<Tree>>>,
    BTreeMap<String, TreeMap>,
    BTreeMap<String, (Tree, Tree)>,
    BTreeMap<String, [Tree; 3]>,
    BTreeMap<String, Option<Vec<Tree>>>,
    BTreeMap<String, Pair<Tree, Tree>>,
    BTreeMap<String, Ab<Tree, Tree>>,
    OneA<Vt>,
    OneA<Opt<Tree>>,
    OneA<Opt<Vec<Ordered<Tree>>>>,
    Abc<Opt<Vt>, Opt<Vt>, Opt<Tree>>,
    AbcStrict<Opt<Vec<Abc<Opt<Vt>, Opt<Tree>, Opt<u8>>>>, Opt<Vec<Tree>>, Opt<u8>>,
    Abc<Opt<Abc<Opt<Tree>, Opt<Tree>, Opt<Tree>>>, Opt<VecDeque<TreeMap>>, Opt<u8>>,
    AbDefault<Vt, Tree>,
    Rest,
    Un,
];

fn block_body(ch: &mut Chooser, budget: &mut usize, depth: usize) -> MBody {
    let mut out = vec![];
    while *budget > 0 {
        let k = ch.choose(if depth > 0 { 8 } else { 5 });
        if k == 0 {
            break;
        }
        *budget -= 1;
        out.push(match k {
            1 => attr("c", num("1")),
            2 => attr("a", num("2")),
            3 => blk("a", vec![], vec![]),
            4 => blk("b", vec![], vec![]),
            5 => blk("a", vec![], block_body(ch, budget, depth - 1)),
            6 => blk("b", vec![], block_body(ch, budget, depth - 1)),
            _ => blk("b", vec![idl("x")], vec![]),
        });
        // an empty block is its own choice
        if k >= 5 && k <= 6 && matches!(out.last(), Some(MEl::Block(b)) if b.body.is_empty()) {
            *budget = 0;
            out.pop();
            break;
        }
    }
    out
}

fn block_bodies(budget: usize) -> Family {
    Family::new("bodies", &format!("all bodies of at most {} elements over 2 attributes, 2 types of blocks and a labelled block, nested 3 deep, as each of {} types", budget, BLOCKS.len()), move |ch, w| {
        let mut left = budget;
        let b = block_body(ch, &mut left, 2);
        let t = plain(&b);
        ch.note(|| t.clone());
        let (h, ok) = files(BLOCKS, &t, &b)?;
        obs_with(h, ok, w, || t.clone())
    })
}

/// Flat orders: which block of a type stands where.
fn orders(max: usize) -> Family {
    Family::new("orders", &format!("all orders of at most {} blocks of 3 types, told apart by their contents, and attributes, as each of {} types", max, BLOCKS.len()), move |ch, w| {
        let mut b = vec![];
        for i in 0..max {
            let k = ch.choose(5);
            if k == 0 {
                break;
            }
            b.push(match k {
                4 => attr(&format!("x{}", i), num(&i.to_string())),
                k => blk(["a", "b", "c"][k - 1], vec![], vec![attr("c", num(&i.to_string()))]),
            });
        }
        let t = plain(&b);
        ch.note(|| t.clone());
        let (h, ok) = files(BLOCKS, &t, &b)?;
        obs_with(h, ok, w, || t.clone())
    })
}

fn many_blocks(big: bool) -> Family {
    let mut sizes: Vec<usize> = (0..=70).collect();
    sizes.extend([99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    if big {
        sizes.extend([2047, 2048, 2049, 4095, 4096, 4097]);
    }
    Family::new("many blocks", &format!("up to {} blocks in 6 arrangements, as each of {} types", sizes[sizes.len() - 1], BLOCKS.len()), move |ch, w| {
        let n = *ch.pick(&sizes);
        let k = ch.choose(6);
        let mut b = vec![];
        for i in 0..n {
            let x = |ty: &str| blk(ty, vec![], vec![attr("c", num(&i.to_string()))]);
            b.push(match k {
                0 => x("a"),
                1 => x(if i % 2 == 0 { "a" } else { "b" }),
                2 => x(&format!("t{}", i)),
                3 => x(&format!("t{}", i % 7)),
                4 => {
                    if i % 3 == 0 {
                        attr(&format!("x{}", i), num("1"))
                    } else {
                        x("b")
                    }
                }
                _ => x(if i == 0 || i + 1 == n { "a" } else { "b" }),
            });
        }
        let t = plain(&b);
        ch.note(|| clip(&t));
        let (h, ok) = files(BLOCKS, &t, &b)?;
        obs_with(h, ok, w, || format!("arrangement {} of {}", k, n))
    })
    .limit(120)
}

fn deep_blocks() -> Family {
    const CHECKS: &[FileCheck] = file_checks![Tree, TreeMap, BTreeMap<String, Vec<Tree>>, Ordered<Tree>, OneA<Tree>];
    Family::new("deep", "blocks nested up to 150 deep in 3 arrangements, as each of 5 types", |ch, w| {
        let n = *ch.pick(&ramp::depths());
        let k = ch.choose(3);
        let mut b = vec![attr("c", num("1"))];
        for i in 0..n {
            b = match k {
                0 => vec![blk("a", vec![], b)],
                1 => vec![attr("c", num("2")), blk("a", vec![], b), attr("d", num("3"))],
                _ => vec![blk("a", vec![], b), blk("a", vec![], vec![attr("e", num(&i.to_string()))])],
            };
        }
        let t = plain(&b);
        ch.note(|| clip(&t));
        let (h, ok) = files(CHECKS, &t, &b)?;
        obs_with(h, ok, w, || format!("arrangement {} at depth {}", k, n))
    })
}

pub const C24: Prop = Prop {
    id: "C24",
    rule: "an execution generates a document of attributes and blocks and deserializes it as each type of a list, comparing each result with what the model says; non-trivial: some type takes it",
    assumptions: &["serde's own implementations for the standard containers and its derive macros are right"],
    families: |t| vec![block_bodies(if t { 6 } else { 5 }), orders(if t { 6 } else { 5 }), many_blocks(t), deep_blocks(), alike(&[1, 2, 3])],
};

// ---------------------------------------------------------------- totality

const ALL: &[FileCheck] = file_checks![
    Tree,
    Ordered<Tree>,
    HashMap<String, String>,
    BTreeMap<String, u8>,
    BTreeMap<String, Vec<Tree>>,
    BTreeMap<String, TreeMap>,
    BTreeMap<String, Option<(Tree, Tree)>>,
    BTreeMap<char, ()>,
    Abc<Opt<Tree>, Opt<Tree>, Opt<Vt>>,
    AbDefault<f64, W<u8>>,
    None0,
    Un,
    Vec<Tree>,
    u8,
    String,
    (),
    Option<Tree>,
];

#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum Enumeration {
    A,
    B(u8),
    C { x: u8 },
    D(u8, u8),
}
#[derive(Deserialize, Debug)]
#[serde(tag = "a")]
#[allow(dead_code)]
enum Tagged {
    S { b: Tree },
    T,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Borrowed<'a> {
    #[serde(borrow)]
    a: Option<&'a str>,
    #[serde(borrow)]
    b: Option<Cow<'a, str>>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Bytes {
    a: Option<serde::de::IgnoredAny>,
    b: Option<Enumeration>,
}

/// Types about which only this is said: no panic, and no value when the text does not parse.
fn other_types(text: &str, parses: bool) -> Result<u64, String> {
    let mut h = 0u64;
    macro_rules! one {
        ($t:ty) => {{
            let r = guard(|| fc::from_str::<$t>(text).is_ok()).map_err(|e| format!("{:?} as {}: {}", clip(text), stringify!($t), e))?;
            if r && !parses {
                return Err(format!("{:?} does not parse but deserializes as {}", clip(text), stringify!($t)));
            }
            h = h * 2 + r as u64;
        }};
    }
    one!(serde::de::IgnoredAny);
    one!(Enumeration);
    one!(BTreeMap<String, Enumeration>);
    one!(Tagged);
    one!(BTreeMap<String, Tagged>);
    one!(Borrowed);
    one!(Bytes);
    one!(BTreeMap<u8, Tree>);
    one!(BTreeMap<bool, Enumeration>);
    Ok(h)
}

fn any_text(text: &str, w: bool) -> Verdict {
    let b = refparse::config(text);
    match &b {
        None => {
            file::<Tree>(text, None)?;
            file::<BTreeMap<String, u8>>(text, None)?;
            file::<Abc<Opt<Tree>, Opt<Tree>, Opt<Vt>>>(text, None)?;
            other_types(text, false)?;
            obs_with(0, false, w, || format!("{:?} rejected", text))
        }
        Some(b) => {
            let (h, _) = files(ALL, text, b)?;
            let g = other_types(text, true)?;
            // the entry points agree
            let d = guard(|| fc::serde::de::Deserializer::from_str(text).map(|d| {
                let e: Result<Tree, _> = Tree::deserialize(d.clone());
                let f: Result<Tree, fc::serde::de::Compat> = Tree::deserialize(IntoDeserializer::into_deserializer(d));
                (e, f)
            }))?;
            match d {
                Ok((e, f)) => {
                    judge(text, &Node::Body(b), e)?;
                    judge(text, &Node::Body(b), f)?;
                }
                Err(e) => return Err(format!("{:?} makes no deserializer: {:?}", clip(text), e)),
            }
            obs_with(h ^ (g << 48), true, w, || format!("{:?} deserialized", text))
        }
    }
}

fn words(name: &str, tokens: &'static [&'static str], n: usize) -> Family {
    Family::new(name, &format!("every sequence of at most {} of {:?}, as each of {} types", n, tokens, ALL.len() + 9), move |ch, w| {
        let s = gen::word(ch, tokens, n);
        ch.note(|| format!("{:?}", s));
        any_text(&s, w)
    })
}

/// Characters that something might add to a text or take from it.
fn anywhere() -> Family {
    Family::new("anywhere", &format!("every Unicode scalar below U+3100, and some of each kind above, at the start, at the end, on its own, doubled at the end, and in 3 places inside of a text, as each of {} types", ALL.len() + 9), |ch, w| {
        let n = ch.choose(0x3100 + 64);
        let c = if n < 0x3100 {
            n as u32
        } else {
            // the ends of the planes and of the surrogates, the marks, and the private ones
            [0xfeff, 0xfffe, 0xffff, 0xfffd, 0xfffc, 0xfff9, 0xd7ff, 0xe000, 0xf8ff, 0x10000, 0x1f600, 0xe0001, 0xe007f, 0xf0000, 0x10fffd, 0x10ffff, 0xfe00, 0xfe0f, 0xff0f, 0xff1d, 0xff5b, 0xff02, 0xa9c0, 0xac00]
                .get(n - 0x3100)
                .copied()
                .unwrap_or(0x4e00 + (n as u32) * 37)
        };
        let c = match char::from_u32(c) {
            Some(c) => c,
            None => return obs(0, false),
        };
        let text = match ch.choose(8) {
            0 => format!("{}a = 1\n", c),
            1 => format!("a = 1\n{}", c),
            2 => format!("a = 1{}", c),
            3 => c.to_string(),
            4 => format!("a = 1\nb \"x\" {{\n}}\n{0}{0}", c),
            5 => format!("a = {}1\n", c),
            6 => format!("b {{{}\n}}\n", c),
            _ => format!("a = 1\n{}\nb {{\n}}\n", c),
        };
        ch.note(|| format!("{:?}", text));
        any_text(&text, w)
    })
}

fn edits() -> Family {
    let texts = accept::texts();
    Family::new("edits", &format!("every prefix of {} texts, every suffix, and every insertion, replacement or deletion of one of {} pieces, as each of {} types", texts.len(), accept::INSERTS.len(), ALL.len() + 9), move |ch, w| {
        let t = ch.pick(&texts);
        let at: Vec<usize> = t.char_indices().map(|x| x.0).chain(Some(t.len())).collect();
        let i = ch.choose(at.len());
        let next = at.get(i + 1).copied().unwrap_or(t.len());
        let (a, z) = (&t[..at[i]], &t[at[i]..]);
        let text = match ch.choose(3 + 2 * accept::INSERTS.len()) {
            0 => a.to_string(),
            1 => z.to_string(),
            2 => format!("{}{}", a, &t[next..]),
            k => {
                let p = accept::INSERTS[(k - 3) / 2];
                if k % 2 == 1 {
                    format!("{}{}{}", a, p, z)
                } else {
                    format!("{}{}{}", a, p, &t[next..])
                }
            }
        };
        ch.note(|| format!("{:?}", text));
        any_text(&text, w)
    })
}

fn deep_texts() -> Family {
    Family::new("deep", "7 kinds of nesting up to 150 deep, complete and cut off at the end, as each of the types", |ch, w| {
        let n = *ch.pick(&ramp::depths());
        let k = ch.choose(ramp::DEEP);
        let (mut t, _) = ramp::deep(k, n);
        let cut = ch.choose(3);
        t.truncate(t.len() - cut * (t.len() / 4));
        ch.note(|| clip(&t));
        any_text(&t, w)
    })
}

pub const C25: Prop = Prop {
    id: "C25",
    rule: "an execution makes a text and deserializes it as each type of a list; a text that the independent recogniser rejects has to be an error for every type, an accepted one is compared with what the model says for 17 types and must not panic for 9 more; non-trivial: the text is accepted",
    assumptions: &["acceptance is judged by the independent recogniser, which C03 compares with the parser", "nesting above 200 levels is outside the property"],
    families: |t| {
        vec![
            words("words", &["a", "b", "=", "1", "-1", "\"x\"", "null", "true", "\n", " ", "{", "}", "[", "]", ",", "a = 1\n", "b {\n", "}\n", "b \"l\" {}\n", "a {}\n"], if t { 6 } else { 5 }),
            words("lines", &["a = 1\n", "a {\n", "}\n", "b x {\n", "b {}\n", "c = { a = 1, a = 2 }\n", "b = 99999999999999999999\n", "a = <<E\nx\nE\n", "c = -1.5\n", "d = [1, null]\n", "c = { \"a\" = \"\\x41\", 1 = 2 }\n"], if t { 6 } else { 5 }),
            edits(),
            anywhere(),
            deep_texts(),
        ]
        .into_iter()
        .chain(gen::mixtures(t, any_text).into_iter().enumerate().filter(|(i, _)| t || (1..3).contains(i)).map(|x| x.1))
        .collect()
    },
};
