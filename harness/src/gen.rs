//! Helpers that turn choices into inputs.
use crate::explore::{Chooser, Family, Verdict};

/// A word of at most `max` letters.
pub fn word(ch: &mut Chooser, alphabet: &[&str], max: usize) -> String {
    let mut s = String::new();
    for _ in 0..max {
        let i = ch.choose(alphabet.len() + 1);
        if i == 0 {
            break;
        }
        s.push_str(alphabet[i - 1]);
    }
    s
}

/// A word of exactly `n` letters.
pub fn word_n(ch: &mut Chooser, alphabet: &[&str], n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(alphabet[ch.choose(alphabet.len())]);
    }
    s
}

use crate::model::*;

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn num(x: &str) -> ME {
    ME::Num(s(x))
}
pub fn st(x: &str) -> ME {
    ME::Str(s(x))
}
pub fn obj(kv: Vec<(&str, ME)>) -> ME {
    ME::Object(kv.into_iter().map(|(k, v)| (MK::Ident(s(k)), v)).collect())
}
pub fn attr(k: &str, v: ME) -> MEl {
    MEl::Attr(s(k), v)
}
pub fn lit(x: &str) -> ML {
    ML::Lit(s(x))
}
pub fn idl(x: &str) -> ML {
    ML::Ident(s(x))
}
pub fn blk(ty: &str, labels: Vec<ML>, body: MBody) -> MEl {
    MEl::Block(MB { ty: s(ty), labels, body })
}

/// Values as they can be written, and what they stand for. The flag says that the text has to be
/// followed by the end of the line.
pub fn values() -> Vec<(String, ME, bool)> {
    let mut v: Vec<(String, ME, bool)> = vec![];
    let mut p = |t: &str, e: ME| v.push((t.to_string(), e, false));
    p("null", ME::Null);
    p("true", ME::Bool(true));
    p("false", ME::Bool(false));
    for n in [
        "0", "1", "-1", "+1", "123", "1.5", "-0.5", ".5", "5.", "1e3", "1E-3", "-.5e+10", "007", "18446744073709551616",
        "-9223372036854775808", "0.10", "1.0e0",
    ] {
        p(n, num(n));
    }
    p("\"\"", st(""));
    p("\"s\"", st("s"));
    p("\"a b # // /* { } [ ] = ,\"", st("a b # // /* { } [ ] = ,"));
    p("\"\\\"q\\\" \\\\ \\n \\t\"", st("\"q\" \\ \n \t"));
    p("\"\\x41\\101\\u00e9\\U0001F600\"", st("AA\u{e9}\u{1F600}"));
    p("\"é 老虎 😀\"", st("é 老虎 😀"));
    p("\"line\nbreak\"", st("line\nbreak"));
    p("\"<<E\"", st("<<E"));
    p("\"null\"", st("null"));
    p("\"1\"", st("1"));
    p("[]", ME::Tuple(vec![]));
    p("[ ]", ME::Tuple(vec![]));
    p("[\n]", ME::Tuple(vec![]));
    p("[1]", ME::Tuple(vec![num("1")]));
    p("[1,]", ME::Tuple(vec![num("1")]));
    p("[1, \"a\", true, null]", ME::Tuple(vec![num("1"), st("a"), ME::Bool(true), ME::Null]));
    p("[\n  1, # c\n  2,\n]", ME::Tuple(vec![num("1"), num("2")]));
    p("[[1], [], [2, 3]]", ME::Tuple(vec![ME::Tuple(vec![num("1")]), ME::Tuple(vec![]), ME::Tuple(vec![num("2"), num("3")])]));
    p("[<<E\nx\nE\n, 1]", ME::Tuple(vec![st("x"), num("1")]));
    p("{}", ME::Object(vec![]));
    p("{ }", ME::Object(vec![]));
    p("{\n}", ME::Object(vec![]));
    p("{a=1}", obj(vec![("a", num("1"))]));
    p("{ a = 1, b = 2 }", obj(vec![("a", num("1")), ("b", num("2"))]));
    p("{\n a = 1\n b = 2\n}", obj(vec![("a", num("1")), ("b", num("2"))]));
    p("{ a = 1, a = 2 }", obj(vec![("a", num("1")), ("a", num("2"))]));
    p("{ a = { b = [1] } }", obj(vec![("a", obj(vec![("b", ME::Tuple(vec![num("1")]))]))]));
    p("{ \"k\" = 1, (2) = 3, true = 4 }", ME::Object(vec![
        (MK::Expr(s("\"k\"")), num("1")),
        (MK::Expr(s("(2)")), num("3")),
        (MK::Ident(s("true")), num("4")),
    ]));
    p("{ a = <<E\nx\nE\n b = 1 }", obj(vec![("a", st("x")), ("b", num("1"))]));
    p("(1)", num("1"));
    p("( ( true ) )", ME::Bool(true));
    p("(\n\"a\"\n)", st("a"));
    p("\n{ a = 1 }", obj(vec![("a", num("1"))]));
    for (t, e) in [
        ("<<E\nE", ""),
        ("<<E\nx\nE", "x"),
        ("<<E\n x\n\n  y \n E", " x\n\n  y "),
        ("<<-E\n  x\n    y\n  E", "x\n  y"),
        ("<<EOF\n\"q\" # c\nEOFX\n EO\nEOF", "\"q\" # c\nEOFX\n EO"),
        ("<<E\r\nx\r\nE", "x"),
        ("<<-É1_\n  é\n   É1_", "é"),
    ] {
        v.push((s(t), st(e), true));
    }
    v
}

/// Documents with a bit of everything.
pub fn seeds() -> Vec<MBody> {
    vec![
        vec![attr("a", num("1"))],
        vec![attr("a", st("x")), attr("b", ME::Null)],
        vec![blk("a", vec![], vec![])],
        vec![blk("a", vec![lit("l"), idl("m")], vec![attr("k", num("1"))])],
        vec![blk("a", vec![], vec![blk("b", vec![lit("")], vec![blk("c", vec![], vec![attr("d", ME::Bool(true))])])])],
        vec![attr("t", ME::Tuple(vec![num("1"), st("x"), ME::Tuple(vec![])]))],
        vec![attr("o", obj(vec![("a", num("1")), ("b", obj(vec![("c", ME::Null)]))]))],
        vec![
            attr("name", st("é\n\"")),
            blk("resource", vec![lit("security/group"), lit("foobar")], vec![
                attr("name", st("foobar")),
                blk("allow", vec![], vec![attr("cidrs", ME::Tuple(vec![st("127.0.0.1/32")]))]),
                blk("allow", vec![], vec![attr("name", st("lan"))]),
                blk("deny", vec![], vec![]),
            ]),
            blk("resource", vec![lit("security/group"), lit("second")], vec![attr("x", num("-1.5e3"))]),
            attr("last", ME::Bool(false)),
        ],
        vec![attr("a-b_c1", ME::Object(vec![(MK::Expr(s("\"k k\"")), num("1")), (MK::Expr(s("(2)")), st("v")), (MK::Ident(s("i")), ME::Tuple(vec![ME::Object(vec![])]))]))],
        vec![],
    ]
}

/// A body of at most `budget` elements, nested at most `depth` deep.
pub fn body(ch: &mut Chooser, budget: &mut usize, depth: usize) -> MBody {
    let mut out = vec![];
    while *budget > 0 {
        let kinds = if depth > 0 { 8 } else { 6 };
        let k = ch.choose(kinds);
        if k == 0 {
            break;
        }
        *budget -= 1;
        out.push(match k {
            1 => attr("a", num("1")),
            2 => attr("b", st("s")),
            3 => attr("a", ME::Tuple(vec![ME::Null, obj(vec![("k", ME::Bool(true))])])),
            4 => blk("a", vec![], vec![]),
            5 => blk("b", vec![lit("x"), idl("y")], vec![attr("a", num("2"))]),
            6 => blk("a", vec![], body(ch, budget, depth - 1)),
            _ => blk("b", vec![idl("x")], body(ch, budget, depth - 1)),
        });
    }
    out
}

/// An expression of at most `budget` nodes.
pub fn expr(ch: &mut Chooser, budget: &mut usize, depth: usize) -> ME {
    *budget = budget.saturating_sub(1);
    let k = ch.choose(if depth > 0 { 8 } else { 6 });
    match k {
        0 => num("1"),
        1 => st("s"),
        2 => ME::Null,
        3 => ME::Bool(true),
        4 => num("-2.5e3"),
        5 => st(""),
        6 => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                v.push(expr(ch, budget, depth - 1));
            }
            ME::Tuple(v)
        }
        _ => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                let key = match ch.choose(3) {
                    0 => MK::Ident(s("k")),
                    1 => MK::Ident(s("null")),
                    _ => MK::Expr(s("\"q\"")),
                };
                v.push((key, expr(ch, budget, depth - 1)));
            }
            ME::Object(v)
        }
    }
}

/// Ways to write a value, well-formed and not.
pub const FEATURES: &[&str] = &[
    "1", "-1", "0", "01", "1.5", "1e3", "1.0E-3", ".5", "+1", "1.", "18446744073709551616", "-0", "true", "false", "null", "nullx", "\"\"", "\"a\"", "\"é\"", "\"\\n\"", "\"\\u00e9\"", "\"\\U0001F600\"", "\"\\\"\"",
    "\"\\\\\"", "\"\\101\"", "\"\\x41\"", "\"a # b\"", "\"// x\"", "\"/* x\"", "\"}\"", "\"{\"", "\"]\"", "\",\"", "\"${a}\"", "\"a\nb\"", "\"a\r\nb\"", "\"<<E\"", "\"\\\n\"", "<<E\nx\nE\n", "<<E\nE\n", "<<-E\n  x\n  E\n",
    "<<-E\n\tx\n y\n\tE\n", "<<E\n\"\nE\n", "<<E\n}\nE\n", "<<E\r\nx\r\nE\r\n", "<<E\nx\nE", "[]", "[1,]", "[,]", "[[], [1]]", "{}", "{\n}", "{a=1}", "{a=1\n}", "{a=1, b=2}", "{a=1\nb=2\n}", "{a=1,\nb=2,\n}", "{\"a\"=1}", "{(a)=1}",
    "{(\"a\")=1\n}", "{é=1}", "/*c*/1", "#c\n1", "1/*c*/", "1 #c\n", "a", "-", "", "(1)",
];
/// Ways to hold a value (at `@`) in another.
const HOLDERS: &[&str] = &[
    "@", "[@]", "[@,]", "[@, 1]", "[1, @]", "[ @ ]", "[\n@\n]", "[#c\n@]", "[@ #c\n]", "{a=@}", "{a=@\n}", "{a=@,}", "{a=@\nb=1}", "{a=@, b=1\n}", "{\"a\"=@\n}", "{(a)=@\n}", "{a = /*c*/@ /*d*/\n}", "{x=1\na=@\n}", "[[1], @]", "{ a = @ }", "(@)",
];
/// Ways to hold a value in a document.
const PLACES: &[&str] = &["a = @\n", "a = @", "\na = @\n\n", "a = @ #c\n", "a = @\r\n", "a=@/*c*/\nb=1\n", "x = 1\na = @\n", "a = <<E\nx\nE\nb = @\nc = 1\n"];
/// Ways to hold a body in another.
const WRAPS: &[&str] = &["@", "b {\n@}\n", "b \"x\" {\n@}\n", "b x y {\n@}\n", "b { @ }\n", "b {\n@}\nc {\n@}\n", "x {\n}\nb {\r\n@}\r\n", "b { @}\n", "#c\nb \"é\" \"\" { #c\n@\n}\nx = 1\n"];
/// Ways for two values to meet.
const MEETS: &[&str] = &["[@, ~]", "[@,\n~,\n]", "{a = @\nb = ~\n}", "{a = @, b = ~ }", "{(@) = ~\n}", "{ @ = ~ }", "[[@], {a = ~\n}]", "[{a = @}, [~]]"];

/// A value in `depth` values, or two together in one.
pub fn mixed_value(ch: &mut Chooser, depth: usize) -> String {
    if ch.flag() {
        let (a, b) = (*ch.pick(FEATURES), *ch.pick(FEATURES));
        let v = ch.pick(MEETS).replace('~', b).replace('@', a);
        return if depth > 1 { ch.pick(HOLDERS).replace('@', &v) } else { v };
    }
    let mut v = ch.pick(FEATURES).to_string();
    for _ in 0..depth {
        v = ch.pick(HOLDERS).replace('@', &v);
    }
    v
}

/// A document with such a value in `bodies` bodies.
fn mixed(ch: &mut Chooser, depth: usize, bodies: usize) -> String {
    let v = mixed_value(ch, depth);
    let mut t = ch.pick(PLACES).replace('@', &v);
    for _ in 0..bodies {
        t = ch.pick(WRAPS).replace('@', &t);
    }
    t
}

/// Two elements after one another, with a value each.
fn mixed_pair(ch: &mut Chooser) -> String {
    let (a, b) = (*ch.pick(FEATURES), *ch.pick(FEATURES));
    let (p, q) = (*ch.pick(PLACES), *ch.pick(PLACES));
    let t = format!("{}{}", p.replace('@', a), q.replace('@', b));
    ch.pick(&WRAPS[..4]).replace('@', &t)
}

/// Families of documents in which several features meet, for a judge of texts.
pub fn mixtures(thorough: bool, judge: fn(&str, bool) -> Verdict) -> Vec<Family> {
    let n = FEATURES.len();
    let d = if thorough { 2 } else { 1 };
    let deep = format!(
        "each of {} ways to write a value in {} holders of {} kinds, and each two of them in {} meetings{}, as an attribute in {} ways in a body of {} kinds",
        n, d, HOLDERS.len(), MEETS.len(), if thorough { " in a holder" } else { "" }, PLACES.len(), WRAPS.len()
    );
    vec![
        Family::new("mixtures", &deep, move |ch, w| {
            let t = mixed(ch, d, 1);
            ch.note(|| format!("{:?}", t));
            judge(&t, w)
        }),
        Family::new("mixed values", &format!("each of {} ways to write a value in 2 holders of {} kinds, as one attribute", n, HOLDERS.len()), move |ch, w| {
            let v = ch.pick(FEATURES).to_string();
            let v = ch.pick(HOLDERS).replace('@', &v);
            let v = ch.pick(HOLDERS).replace('@', &v);
            let t = ch.pick(PLACES).replace('@', &v);
            ch.note(|| format!("{:?}", t));
            judge(&t, w)
        }),
        Family::new("mixed bodies", &format!("each of {} ways to write a value in a holder of {} kinds, as an attribute in 2 bodies of {} kinds", n, if thorough { HOLDERS.len() } else { 1 }, WRAPS.len()), move |ch, w| {
            let mut t = ch.pick(FEATURES).to_string();
            if thorough {
                t = ch.pick(HOLDERS).replace('@', &t);
            }
            for l in [PLACES, WRAPS, WRAPS] {
                t = ch.pick(l).replace('@', &t);
            }
            ch.note(|| format!("{:?}", t));
            judge(&t, w)
        }),
        Family::new("mixed pairs", &format!("each two of {} values as two attributes written in {} ways, in 4 bodies", n, PLACES.len()), move |ch, w| {
            let t = mixed_pair(ch);
            ch.note(|| format!("{:?}", t));
            judge(&t, w)
        }),
    ]
}

/// Texts that are easily mistaken for one another; the first ones are names.
pub const ALIKE: &[&str] = &[
    "a", "A", "ab", "aB", "b", "a1", "a-b", "a_b", "ab1", "aa", "é", "e\u{301}", "É", "e", "ａ", "á", "ß", "ss", "ı", "i", "I", "а", "l", "true", "null", "a-", "a--b", "Aa", "BB", "",
    " ", " a", "a ", "a b", "a\tb", "a  b", "a.b", "a/b", "'a'", "1", "01", "1.0", "a\u{a0}", "\u{feff}a", "a\u{200d}", "a,b", "a:b", "ba",
];
pub const ALIKE_NAMES: usize = 29;

/// Every character that has another case, with each of its cases, and some that are said to be the
/// same as others.
fn foldable(names: bool) -> &'static [(String, String)] {
    use std::sync::OnceLock;
    static ALL: OnceLock<[Vec<(String, String)>; 2]> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v: Vec<(String, String)> = vec![];
        for c in (0..=0x10ffff).filter_map(std::char::from_u32) {
            let x = c.to_string();
            let mut ys = vec![x.to_lowercase(), x.to_uppercase(), x.to_lowercase().to_uppercase(), x.to_uppercase().to_lowercase()];
            ys.sort();
            ys.dedup();
            v.extend(ys.into_iter().filter(|y| *y != x).map(|y| (x.clone(), y)));
        }
        let mut all = v;
        for (x, y) in [
            ("\u{212b}", "\u{e5}"), ("\u{212b}", "\u{c5}"), ("\u{212b}", "A\u{30a}"), ("\u{2126}", "\u{3a9}"), ("\u{fb01}", "fi"), ("\u{b2}", "2"), ("\u{ff21}", "A"), ("\u{3c2}", "\u{3c3}"), ("\u{f900}", "\u{8c48}"), ("\u{2000}", "\u{2002}"),
            ("\u{ac00}", "\u{1100}\u{1161}"), ("\u{1e9b}\u{323}", "\u{1e69}"), ("\u{2460}", "1"), ("\u{ff76}", "\u{30ab}"), ("\u{430}", "a"), ("\u{2014}", "-"), ("\u{ad}", ""), ("\u{200b}", ""), ("\u{660}", "0"), ("a\u{ad}", "a"), ("a\u{fe0f}", "a"),
        ] {
            all.push((x.to_string(), y.to_string()));
        }
        let name = |t: &str| !t.is_empty() && crate::refparse::config(&format!("{} = 1\n", t)).map_or(false, |b| matches!(&b[..], [crate::model::MEl::Attr(k, _)] if k == t));
        let some = all.iter().filter(|(x, y)| name(x) && name(y)).cloned().collect();
        [all, some]
    });
    &all[names as usize]
}

/// Two texts, alike or equal: short ones of a list, or long ones that differ in one place or in
/// length.
pub fn alike(ch: &mut Chooser, names: bool, max: usize) -> (String, String) {
    const SIZES: &[usize] = &[
        2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 48, 63, 64, 65, 80, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097,
        65535, 65536, 65537,
    ];
    match ch.choose(3) {
        0 => {}
        1 => {
            let l = if names { &ALIKE[..ALIKE_NAMES] } else { ALIKE };
            return (ch.pick(l).to_string(), ch.pick(l).to_string());
        }
        _ => {
            let l = foldable(names);
            return ch.pick(l).clone();
        }
    }
    let n = *ch.pick(&SIZES[..SIZES.iter().filter(|n| **n <= max).count()]);
    let mut at = vec![0, n / 2, n - 1];
    at.extend([2, 7, 8, 15, 16, 22, 23, 31, 32, 63, 64, 127, 128, 255, 256, 1024, 4096].iter().filter(|i| **i < n && **i != n / 2 && **i != n - 1));
    let at = *ch.pick(&at);
    let x: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
    let (head, tail) = (&x[..at], &x[at + 1..]);
    let y = match ch.choose(6) {
        0 => x.clone(),
        1 => format!("{}z{}", head, tail),
        2 => format!("{}{}", head, tail),
        3 => format!("{}{}{}", head, x[at..at + 1].to_uppercase(), tail),
        4 => format!("{}é{}", head, tail),
        _ => format!("{}{}{}", head, &x[at..at + 1], &x[at..]),
    };
    // either may be the shorter one
    if ch.flag() {
        (y, x)
    } else {
        (x, y)
    }
}

pub fn alike_bound(max: usize) -> String {
    format!("two equal or similar texts: any two of {}, every character with its other cases and 21 more pairs, and long ones of sizes up to {} that differ in one of up to 20 places or in length", ALIKE.len(), max)
}

/// Two numbers of many digits that are written alike: with one digit changed, added or taken, or
/// with the point at another place.
pub fn alike_numbers(ch: &mut Chooser, max: usize) -> (String, String) {
    const SIZES: &[usize] = &[1, 2, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 38, 39, 40, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 308, 309, 310, 400, 512, 513, 767, 768, 769, 1000, 1001, 1023, 1024, 1025, 2049, 4096, 4097, 65535, 65536, 65537];
    let n = *ch.pick(&SIZES[..SIZES.iter().filter(|n| **n <= max).count()]);
    let d: String = match ch.choose(3) {
        0 => (0..n).map(|i| (b'1' + (i % 9) as u8) as char).collect(),
        1 => format!("1{}", "0".repeat(n - 1)),
        _ => "9".repeat(n),
    };
    let at = [0, n / 2, n - 1, n.min(17) - 1, n.min(1001) - 1][ch.choose(5)];
    let other = match ch.choose(6) {
        0 => d.clone(),
        1 => format!("{}5{}", &d[..at], &d[at + 1..]),
        2 => format!("{}0", d),
        3 => format!("0{}", d),
        4 => format!("{}{}", &d[..at], &d[at + 1..]),
        _ => format!("{}0{}", &d[..at], &d[at..]),
    };
    let point = *ch.pick(&[n + 9, 0, n / 2, n - 1]);
    let end = *ch.pick(&["", "e7", "e-7"]);
    let write = |d: &str| {
        let d = if d.is_empty() { "0" } else { d };
        if point < d.len() {
            let d = format!("{}.{}", &d[..point], &d[point..]);
            format!("{}{}{}", if point == 0 { "0" } else { "" }, d, end)
        } else {
            format!("{}{}", d, end)
        }
    };
    let (a, b) = (write(&d), write(&other));
    match ch.choose(3) {
        0 => (a, b),
        1 => (format!("-{}", b), format!("-{}", a)),
        _ => (format!("-{}", a), b),
    }
}
