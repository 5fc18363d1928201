use crate::explore::*;
use crate::render::{plain, plain_expr, Render};
use crate::{gen, model, ramp, refparse, reflegacy, Prop};
use ferrous_chloride as fc;
use model::clip;

pub fn check_config(s: &str, want_sample: bool) -> Verdict {
    let got = guard(|| fc::parse_str(s).ok().map(|b| model::body(&b)))?;
    let exp = refparse::config(s);
    if got != exp {
        return Err(format!("input {:?}\n  got      {}\n  expected {}", s, clip(&format!("{:?}", got)), clip(&format!("{:?}", exp))));
    }
    Ok(Obs {
        class: model::hash(&exp),
        nontrivial: exp.as_ref().map_or(false, |b| !b.is_empty()),
        sample: if want_sample { Some(format!("{:?} -> {:?}", s, exp)) } else { None },
    })
}

pub fn check_legacy(s: &str, want_sample: bool) -> Verdict {
    let got = guard(|| fc::value::from_str(s, None).ok().map(|b| model::map(&b)))?;
    let exp = reflegacy::document(s);
    if got != exp {
        return Err(format!("input {:?}\n  got      {}\n  expected {}", s, clip(&format!("{:?}", got)), clip(&format!("{:?}", exp))));
    }
    Ok(Obs {
        class: model::hash(&exp),
        nontrivial: exp.as_ref().map_or(false, |b| !b.entries.is_empty()),
        sample: if want_sample { Some(format!("{:?} -> {:?}", s, exp)) } else { None },
    })
}

pub fn check_expr(s: &str, want_sample: bool) -> Verdict {
    let got = guard(|| match fc::parser::Expression::parse(s) {
        Ok(e) => Ok(model::expr(&e)),
        Err(fc::Error::UnexpectedRemainingInput(r)) => Err(Some(r)),
        Err(_) => Err(None),
    })?;
    let exp = match (refparse::P { s }).expr(0) {
        Some((q, e)) if q == s.len() => Ok(e),
        Some((q, _)) => Err(Some(s[q..].to_string())),
        None => Err(None),
    };
    if got != exp {
        return Err(format!(
            "expression {:?} (an error carries the remaining text, if it has one)\n  got      {}\n  expected {}",
            s,
            clip(&format!("{:?}", got)),
            clip(&format!("{:?}", exp))
        ));
    }
    Ok(Obs {
        class: model::hash(&exp),
        nontrivial: exp.is_ok(),
        sample: if want_sample { Some(format!("{:?} -> {:?}", s, exp)) } else { None },
    })
}

pub const CHARS: &[&str] = &["a", "=", "1", "\n", " ", "\"", "{", "}", "[", "]", ",", "#", "/", "*", "(", ")", "\r"];
pub const TOKENS: &[&str] = &[
    "a", "=", "1", "\n", " ", "{", "}", "\"s\"", "[", "]", ",", "(", ")", "#c\n", "/*c*/", "<<E\nx\nE", "true", "null", "-", ".", "\t", "//c\r\n",
];
const EXPR_CHARS: &[&str] = &["a", "=", "1", "\n", " ", "\"", "{", "}", "[", "]", ",", "#", "/", "*", "(", ")", "-", "."];
const EXPR_TOKENS: &[&str] = &[
    "a", "=", "1", "\n", " ", "{", "}", "\"s\"", "[", "]", ",", "(", ")", "#c\n", "/*c*/", "<<E\nx\nE", "true", "null", "-2.5e1", "//c\r\n",
];
/// What an edit puts in.
pub const INSERTS: &[&str] = &[
    "a", "1", "=", "\n", "\r", " ", "\t", "\"", "{", "}", "[", "]", "(", ")", ",", "#", "/", "*", "<", "-", ".", "e", "\\", "_", "+", "é", "\u{0}", "\u{b}",
    "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{300}", "${", "/*", "*/", "//", "<<E\n", "\r\n", "null", "true", "\"s\"", ":", ";", "'", "%", "?", "!", "b {\n",
    "E\n", "= 1\n", "}\n",
];

type Check = fn(&str, bool) -> Verdict;

/// Texts for edits: short documents that together use everything.
pub fn texts() -> Vec<String> {
    let mut v: Vec<String> = gen::seeds().iter().map(|m| plain(m)).collect();
    for (t, _, eol) in gen::values() {
        v.push(format!("v = {}\n", t));
        if !eol && !t.contains('\n') {
            v.push(format!("b {{ v = {} }}\n", t));
        }
    }
    for t in [
        "# c\na = 1 # d\n\n// e\nb = 2 /* f */\n/* g\n */ c = 3\n",
        "a \"x\" y {\n  b = [ 1, # c\n 2 ]\n  // d\n}\n",
        "a {}\nb { c = 1 }\nd {\n e { f = \"}\" }\n}\n",
        "a = <<E\n x\nE\nb = <<-F\n  y\n   z\n  F\n",
        "a = { b = 1, \"c\" = [2], (3) = { d = null }\n e = \"\\n\\x41\\u00e9\" }\n",
        "\"k\" = 1\nl {\n \"m\" = [true, {n = 1, o = 2}]\n}\nr \"s\" \"t\" {\n u = -1.5\n}\n",
        "a = 1\r\nb {\r\n c = 2\r\n}\r\n",
    ] {
        v.push(t.to_string());
    }
    v
}

/// Every single edit of the texts: a prefix, a deletion, an insertion, a replacement, a
/// duplication or an exchange of neighbours.
fn edits(check: Check, texts: Vec<String>, wrap: fn(&str) -> String) -> Family {
    let n: usize = texts.len();
    Family::new(
        "edits",
        &format!("every prefix, every deletion of a range of up to 6 characters, every insertion and replacement of {} pieces, every duplication and exchange of neighbours in {} texts", INSERTS.len(), n),
        move |ch, w| {
            let t = ch.pick(&texts);
            let idx: Vec<usize> = t.char_indices().map(|x| x.0).chain(std::iter::once(t.len())).collect();
            let i = ch.choose(idx.len());
            let at = idx[i];
            let s = match ch.choose(6) {
                0 => t[..at].to_string(),
                1 => {
                    let j = (i + ch.range(1, 6)).min(idx.len() - 1);
                    format!("{}{}", &t[..at], &t[idx[j]..])
                }
                2 => format!("{}{}{}", &t[..at], ch.pick(INSERTS), &t[at..]),
                3 => {
                    let next = *idx.get(i + 1).unwrap_or(&at);
                    format!("{}{}{}", &t[..at], ch.pick(INSERTS), &t[next..])
                }
                4 => {
                    let j = (i + ch.range(1, 8)).min(idx.len() - 1);
                    format!("{}{}{}", &t[..idx[j]], &t[at..idx[j]], &t[idx[j]..])
                }
                _ => {
                    let j = (i + 1).min(idx.len() - 1);
                    let k = (i + 2).min(idx.len() - 1);
                    format!("{}{}{}{}", &t[..at], &t[idx[j]..idx[k]], &t[at..idx[j]], &t[idx[k]..])
                }
            };
            let s = wrap(&s);
            ch.note(|| format!("{:?}", s));
            check(&s, w)
        },
    )
}

/// Two edits by whole tokens.
fn token_edits(check: Check, docs: &'static [&'static [&'static str]]) -> Family {
    Family::new(
        "token edits",
        &format!("every pair of deletions, insertions and replacements of tokens in {} documents", docs.len()),
        move |ch, w| {
            let mut t: Vec<&str> = ch.pick(docs).to_vec();
            let mut lo = 0;
            for _ in 0..2 {
                let i = lo + ch.choose(t.len() - lo + 1);
                lo = i;
                match ch.choose(3) {
                    0 => {
                        if i < t.len() {
                            t.remove(i);
                        }
                    }
                    1 => {
                        t.insert(i, *ch.pick(TOKENS));
                        lo = i + 1;
                    }
                    _ => {
                        let x = *ch.pick(TOKENS);
                        if i < t.len() {
                            t[i] = x;
                        }
                        lo = (i + 1).min(t.len());
                    }
                }
            }
            let s = t.concat();
            ch.note(|| format!("{:?}", s));
            check(&s, w)
        },
    )
}

const TOKEN_DOCS: &[&[&str]] = &[
    &["a", " ", "=", " ", "1", "\n"],
    &["a", " ", "{", "\n", "a", "=", "1", "\n", "}", "\n"],
    &["a", "\"s\"", "a", "{", "a", "=", "1", "}", "\n"],
    &["a", "=", "[", "1", ",", "\"s\"", ",", "]", "\n"],
    &["a", "=", "{", "a", "=", "1", ",", "a", "=", "null", "}", "\n"],
    &["a", "=", "<<E\nx\nE", "\n", "a", "=", "(", "true", ")", "\n"],
];
const LEGACY_DOCS: &[&[&str]] = &[
    &["\"s\"", " ", "=", " ", "1", ","],
    &["a", "{", "\n", "a", "=", "1", "\n", "}", "\n"],
    &["a", "\"s\"", "\"s\"", "{", "a", "=", "1", "}", "\n"],
    &["a", "=", "[", "1", ",", "\"s\"", ",", "]", "\n"],
    &["a", "=", "{", "a", "=", "1", ",", "a", "=", "null", "}", ","],
    &["a", "=", "<<E\nx\nE", "\n", "a", "=", "-", "1", "\n"],
];
const EXPR_DOCS: &[&[&str]] = &[
    &["[", "1", ",", "\"s\"", ",", "]"],
    &["{", "a", "=", "1", ",", "a", "=", "null", "}"],
    &["(", "[", "(", "true", ")", "]", ")"],
    &["{", "\"s\"", "=", "[", "]", "\n", "(", "1", ")", "=", "{", "}", "}"],
    &["[", "<<E\nx\nE", "\n", ",", "{", "a", "=", "1", "}", "]"],
];

fn words(name: &str, check: Check, alphabet: &'static [&'static str], n: usize) -> Family {
    Family::new(name, &format!("every sequence of at most {} of {:?}", n, alphabet), move |ch, w| {
        let s = gen::word(ch, alphabet, n);
        ch.note(|| format!("{:?}", s));
        check(&s, w)
    })
}

/// A text in which every character of an accepted document stands where it stands, but the rest
/// of the document is longer than any window a shortcut would look at.
fn padded(check: Check) -> Family {
    let mut sizes = ramp::sizes(true);
    sizes.retain(|n| *n <= 4097);
    Family::new("far errors", &format!("a malformed tail of 12 kinds after {} sizes of well-formed text of 3 kinds", sizes.len()), move |ch, w| {
        let n = *ch.pick(&sizes);
        let pad = match ch.choose(3) {
            0 => "a = 1\n".repeat(n),
            1 => format!("a = \"{}\"\n", "x".repeat(n)),
            _ => format!("b {{\n{}}}\n", "  c = [1, 2]\n".repeat(n)),
        };
        let tail = *ch.pick(&["a", "a =", "a = [", "b {", "}", "b {\n}}", "= 1", "a = 1 b = 2\n", "\"", "a = \"x", "a = <<E\nx", "/* c"]);
        let s = format!("{}{}", pad, tail);
        ch.note(|| clip(&s));
        check(&s, w)
    })
}

fn families(check: Check, docs: &'static [&'static [&'static str]], thorough: bool) -> Vec<Family> {
    let n = if thorough { 6 } else { 5 };
    vec![
        words("characters", check, CHARS, n),
        words("tokens", check, TOKENS, n),
        edits(check, texts(), |s| s.to_string()),
        token_edits(check, docs),
        padded(check),
    ]
}

pub const C03: Prop = Prop {
    id: "C03",
    rule: "an execution makes a text (a word over an alphabet, or an edited document) and compares what the parser makes of it (the document, or rejection) with an independent recogniser; non-trivial: the text is accepted and has an element",
    assumptions: &["the recogniser in harness/src/refparse.rs is the dialect (calibrated: agreement on all strings of up to 6 characters and tokens)", "tables of unic-ucd-ident"],
    families: |t| {
        let mut v = families(check_config, TOKEN_DOCS, t);
        v.push(every_scalar(check_config, CONFIG_PLACES));
        v.extend(gen::mixtures(t, check_config));
        v
    },
};

fn legacy_built(thorough: bool) -> Vec<Family> {
    let sizes = ramp::sizes(thorough);
    vec![
        Family::new("growth", &format!("{} kinds of document at {} sizes", ramp::FLAT, sizes.len()), move |ch, w| {
            let n = *ch.pick(&sizes);
            let k = ch.choose(ramp::FLAT);
            let t = ramp::flat(k, n).0;
            ch.note(|| clip(&t));
            check_legacy(&t, w)
        }),
        Family::new("own growth", "6 kinds of document of the older dialect at 90 sizes", move |ch, w| {
            let sizes = ramp::sizes(false);
            let n = *ch.pick(&sizes);
            let (t, entries) = match ch.choose(6) {
                0 => (format!("r {}{{\n}}\n", "\"l\" ".repeat(n.max(1))), vec![("r".to_string(), model::MV::Block(false, vec![(vec!["l".to_string(); n.max(1)], model::MM { merged: false, entries: vec![] })]))]),
                1 => ("a = 1, ".repeat(n), vec![("a".to_string(), model::MV::Int(1)); n]),
                2 => ("\"k k\" = null\n".repeat(n), vec![("k k".to_string(), model::MV::Null); n]),
                3 => (format!("a = {{{}}}\n", "b = 1,".repeat(n)), vec![("a".to_string(), model::MV::Object(vec![model::MM { merged: false, entries: vec![("b".to_string(), model::MV::Int(1)); n] }]))]),
                4 => (format!("a = [{}]\n", "2, ".repeat(n)), vec![("a".to_string(), model::MV::List(vec![model::MV::Int(2); n]))]),
                _ => (format!("a {{\n{}}}\n", "b = 0.5\n".repeat(n)), vec![("a".to_string(), model::MV::Object(vec![model::MM { merged: false, entries: vec![("b".to_string(), model::MV::Float(0.5f64.to_bits())); n] }]))]),
            };
            ch.note(|| clip(&t));
            let exp = model::MM { merged: false, entries };
            let got = guard(|| fc::value::from_str(&t, None).map(|b| model::map(&b)).map_err(|e| e.to_string()))?;
            if got.as_ref() != Ok(&exp) {
                return Err(format!("input {}\n  got {}\n  expected {}", clip(&t), clip(&format!("{:?}", got)), clip(&format!("{:?}", exp))));
            }
            Ok(Obs { class: model::hash(&exp), nontrivial: n > 0, sample: if w { Some(clip(&t)) } else { None } })
        }),
        Family::new("nesting", "maps, lists, blocks and labelled blocks nested up to 150 deep", move |ch, w| {
            let ds = ramp::depths();
            let n = *ch.pick(&ds);
            let t = match ch.choose(5) {
                0 => format!("a = {}1{}\n", "[".repeat(n), "]".repeat(n)),
                1 => format!("{}{}", "a {\n".repeat(n), "}\n".repeat(n)),
                2 => format!("a = {}1{}\n", "{ b = ".repeat(n), " , }".repeat(n)),
                3 => format!("{}{}", "r \"x\" \"y\" {\n".repeat(n), "}\n".repeat(n)),
                _ => ramp::deep(n % ramp::DEEP, n).0,
            };
            ch.note(|| clip(&t));
            check_legacy(&t, w)
        }),
        Family::new("numbers", "integers around the bounds of 64 bits and floats of up to 40 digits, in 3 places", move |ch, w| {
            let sign = *ch.pick(&["", "-", "+"]);
            let zeros = *ch.pick(&["", "0", "00000000000000000000000"]);
            let digits = match ch.choose(4) {
                0 => {
                    let base: u128 = *ch.pick(&[1u128 << 63, 1 << 64, 1 << 31, 1 << 32, 1 << 53, 10_000_000_000_000_000_000, 1 << 62]);
                    let d = ch.range(0, 6) as u128;
                    (base + d - 3).to_string()
                }
                1 => "1234567890123456789012345678901234567890"[..ch.range(1, 40)].to_string(),
                2 => "9".repeat(ch.range(1, 40)),
                _ => format!("1{}", "0".repeat(ch.range(0, 40))),
            };
            let tail = *ch.pick(&["", ".", ".0", ".5", "e0", "e3", "E-3", "e400", ".25e-400", "e"]);
            let n = format!("{}{}{}{}", sign, zeros, digits, tail);
            let t = match ch.choose(3) {
                0 => format!("a = {}\n", n),
                1 => format!("a = [{}, 1]\n", n),
                _ => format!("a {{\n b = {}\n}}", n),
            };
            ch.note(|| t.clone());
            check_legacy(&t, w)
        }),
    ]
}

/// Every scalar in places of a text, alone and where others of its kind are.
fn every_scalar(check: Check, places: &'static [(&'static str, &'static str)]) -> Family {
    Family::new("scalars", &format!("every Unicode scalar in {} places", places.len()), move |ch, w| {
        let c = super::total::scalar(ch.choose(272) * 4096 + ch.choose(4096));
        let (a, b) = *ch.pick(places);
        let t = format!("{}{}{}", a, c, b);
        ch.note(|| format!("{:?}", t));
        check(&t, w)
    })
}

const CONFIG_PLACES: &[(&str, &str)] = &[
    ("", "a = 1\n"),
    ("a", " = 1\n"),
    ("a", "b {}\n"),
    ("a ", "= 1\n"),
    ("a = ", "1\n"),
    ("a = 1", "\n"),
    ("a = 1", "b = 2\n"),
    ("a = 1\n", ""),
    ("b ", " {}\n"),
    ("b {", "}\n"),
    ("b {}", "\nc = 1\n"),
    ("b \"x", "\" {}\n"),
    ("# c", "\na = 1 # d\n"),
    ("a = 1 // ", "\nb = 2\n"),
    ("/* *", "/ */ a = 1\n"),
    ("a = [1", "2]\n"),
    ("a = { b", "= 1", ),
    ("a = <<E\n", "E\nE\n"),
    ("a = <<E\nx\nE", "\nb = 1\n"),
    ("a = <<E", "\nx\nE\n"),
    ("a = null", "\n"),
];
const EXPR_PLACES: &[(&str, &str)] = &[
    ("", ""),
    ("1", ""),
    ("-", "1"),
    ("true", ""),
    ("nul", ""),
    ("[1", "2]"),
    ("[", "]"),
    ("{ a", " = 1 }"),
    ("{ a = 1", "b = 2 }"),
    ("{ ", " = 1 }"),
    ("{ (1", ") = 1 }"),
    ("( 1", ")"),
    ("[1 # ", "\n]"),
    ("[1 /* *", "/ */]"),
    ("\"", "\""),
    ("\"a", "b\" "),
    ("<<E\n", "\nE\n"),
];

pub const C18: Prop = Prop {
    id: "C18",
    rule: "an execution makes a text (a word, an edited document, or a document of a chosen size) and compares what the older front-end makes of it, without merging, with an independent recogniser; non-trivial: the text is accepted and has an entry",
    assumptions: &["the recogniser in harness/src/reflegacy.rs is the dialect (calibrated: agreement on all strings of up to 6 characters and tokens)", "floats are read as by the standard library"],
    families: |t| {
        let mut v = families(check_legacy, LEGACY_DOCS, t);
        v.extend(legacy_built(t));
        v.push(every_scalar(check_legacy, CONFIG_PLACES));
        v.extend(gen::mixtures(t, check_legacy));
        v
    },
};

fn expr_texts() -> Vec<String> {
    let mut v: Vec<String> = gen::values().into_iter().map(|(t, _, eol)| if eol { format!("[{}\n]", t) } else { t }).collect();
    for t in ["[1, {a = [\"x\"], \"b\" = (2)}, (null)]", "{ a = 1 # c\n b = <<E\nx\nE\n c = [], }", "( [ /* c */ 1 , // d\n 2 ] )"] {
        v.push(t.to_string());
    }
    v
}

pub const C04: Prop = Prop {
    id: "C04",
    rule: "an execution makes a text and compares what it parses to as one expression (the structure, the remaining text reported, or rejection) with an independent recogniser or with the expression it was written from; non-trivial: the text is accepted",
    assumptions: &["the recogniser in harness/src/refparse.rs is the dialect"],
    families: |t| {
        let n = if t { 6 } else { 5 };
        let sizes = ramp::sizes(true);
        let depths = ramp::depths();
        vec![
            words("characters", check_expr, EXPR_CHARS, n),
            words("tokens", check_expr, EXPR_TOKENS, n),
            edits(check_expr, expr_texts(), |s| s.to_string()),
            token_edits(check_expr, EXPR_DOCS),
            every_scalar(check_expr, EXPR_PLACES),
            Family::new("mixtures", &format!("each of {} ways to write a value in {} others, and each two of them together in one, followed by 4 tails", gen::FEATURES.len(), if t { 3 } else { 2 }), move |ch, w| {
                let s = gen::mixed_value(ch, if t { 3 } else { 2 }) + *ch.pick(&["", " ", "\n", "x"]);
                ch.note(|| format!("{:?}", s));
                check_expr(&s, w)
            }),
            Family::new("shapes", "every expression of at most 5 (thorough: 6) nodes nested at most 3 deep, followed by 5 tails", move |ch, w| {
                let mut budget = if t { 6 } else { 5 };
                let e = gen::expr(ch, &mut budget, 3);
                let s = plain_expr(&e);
                let tail = *ch.pick(&["", " ", "\n", ",", "1"]);
                // a number may go on with the digit
                let tail = if tail == "1" && s.ends_with(|c: char| c.is_ascii_digit()) { ";" } else { tail };
                let text = format!("{}{}", s, tail);
                ch.note(|| text.clone());
                let got = guard(|| match fc::parser::Expression::parse(&text) {
                    Ok(e) => Ok(model::expr(&e)),
                    Err(fc::Error::UnexpectedRemainingInput(r)) => Err(r),
                    Err(e) => Err(format!("? {}", e)),
                })?;
                let exp = if tail.is_empty() { Ok(e) } else { Err(tail.to_string()) };
                if got != exp {
                    return Err(format!("expression {:?}\n  got      {:?}\n  expected {:?}", text, got, exp));
                }
                Ok(Obs { class: model::hash(&exp), nontrivial: tail.is_empty(), sample: if w { Some(text) } else { None } })
            }),
            Family::new("layout", "6 expressions in every layout with at most 2 departures from the default one", move |ch, w| {
                use gen::*;
                use model::*;
                let es = [
                    ME::Tuple(vec![num("1"), st("x"), ME::Tuple(vec![ME::Null])]),
                    obj(vec![("a", num("1")), ("b", obj(vec![("c", ME::Bool(true))]))]),
                    ME::Object(vec![(MK::Expr(s("\"k\"")), num("1")), (MK::Expr(s("(2)")), ME::Tuple(vec![])), (MK::Ident(s("i")), obj(vec![]))]),
                    ME::Tuple(vec![obj(vec![("a", num("1"))]), obj(vec![])]),
                    ME::Tuple(vec![]),
                    obj(vec![("a", ME::Tuple(vec![num("1"), num("2"), num("3")]))]),
                ];
                let e = ch.pick(&es).clone();
                let text = {
                    let mut r = Render::new(Some(ch));
                    r.expr(&e);
                    r.out
                };
                ch.note(|| text.clone());
                let got = guard(|| fc::parser::Expression::parse(&text).map(|e| model::expr(&e)).map_err(|e| e.to_string()))?;
                if got.as_ref() != Ok(&e) {
                    return Err(format!("expression {:?}\n  got      {:?}\n  expected {:?}", text, got, e));
                }
                Ok(Obs { class: model::hash(&text), nontrivial: true, sample: if w { Some(text) } else { None } })
            })
            .dev(if t { 3 } else { 2 }),
            Family::new("brackets", "a value in up to 150 brackets with blanks of 4 kinds", move |ch, w| {
                let n = *ch.pick(&depths);
                let g = *ch.pick(&["", " ", "\n", "/* c */# d\n"]);
                let (v, e) = ch.pick(&[("1", gen::num("1")), ("[ ]", model::ME::Tuple(vec![])), ("\"(\"", gen::st("(")), ("{ a = (null) }", gen::obj(vec![("a", model::ME::Null)]))]).clone();
                let close = n + ch.choose(3);
                let text = format!("{}{}{}", format!("({}", g).repeat(n), v, format!("{})", g).repeat(close));
                ch.note(|| clip(&text));
                let got = guard(|| match fc::parser::Expression::parse(&text) {
                    Ok(e) => Ok(model::expr(&e)),
                    Err(fc::Error::UnexpectedRemainingInput(r)) => Err(r),
                    Err(e) => Err(format!("? {}", e)),
                })?;
                let exp = if close == n { Ok(e) } else { Err(format!("{})", g).repeat(close - n)) };
                if got != exp {
                    return Err(format!("expression {:?}\n  got      {:?}\n  expected {:?}", clip(&text), got, exp));
                }
                Ok(Obs { class: model::hash(&exp), nontrivial: true, sample: if w { Some(clip(&text)) } else { None } })
            }),
            Family::new("growth", &format!("7 kinds of collection and literal at {} sizes", sizes.len()), move |ch, w| {
                use model::*;
                let n = *ch.pick(&sizes);
                let (text, e) = match ch.choose(7) {
                    0 => (format!("[{}]", (0..n).map(|i| format!("{}, ", i)).collect::<String>()), ME::Tuple((0..n).map(|i| gen::num(&i.to_string())).collect())),
                    1 => (format!("[{}]", vec!["\"x\""; n].join(",")), ME::Tuple(vec![gen::st("x"); n])),
                    2 => (format!("{{{}}}", (0..n).map(|i| format!("k{} = {}\n", i, i)).collect::<String>()), ME::Object((0..n).map(|i| (MK::Ident(format!("k{}", i)), gen::num(&i.to_string()))).collect())),
                    3 => (format!("{{{}}}", (0..n).map(|i| format!("\"k{}\" = {},", i, i)).collect::<String>()), ME::Object((0..n).map(|i| (MK::Expr(format!("\"k{}\"", i)), gen::num(&i.to_string()))).collect())),
                    4 => (format!("\"{}\"", "é".repeat(n)), ME::Str("é".repeat(n))),
                    5 => (format!("1{}", "0".repeat(n)), ME::Num(format!("1{}", "0".repeat(n)))),
                    _ => (format!("[{}]", "{}, [],".repeat(n)), ME::Tuple((0..2 * n).map(|i| if i % 2 == 0 { ME::Object(vec![]) } else { ME::Tuple(vec![]) }).collect())),
                };
                ch.note(|| clip(&text));
                let got = guard(|| fc::parser::Expression::parse(&text).map(|e| model::expr(&e)).map_err(|e| e.to_string()))?;
                if got.as_ref() != Ok(&e) {
                    return Err(format!("expression {}\n  got      {}\n  expected {}", clip(&text), clip(&format!("{:?}", got)), clip(&format!("{:?}", e))));
                }
                Ok(Obs { class: model::hash(&e), nontrivial: true, sample: if w { Some(clip(&text)) } else { None } })
            }),
        ]
    },
};
