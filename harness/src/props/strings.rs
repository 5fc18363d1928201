//! C06 quoted strings, C07 heredocs, C10 identifiers.
use super::total::{scalar, scalars};
use crate::explore::*;
use crate::model::*;
use crate::{gen, model, ramp, refparse, Prop};
use ferrous_chloride as fc;

/// Where a quoted string can stand. The expected text is `None` when it has to be rejected there.
pub const PLACES: usize = 8;

/// Parses a document with the quoted text (without its quotes) in a place, and gives the string
/// found there.
fn parse_in(place: usize, inner: &str) -> Result<Option<String>, String> {
    let doc = match place {
        0 => format!("a = \"{}\"\n", inner),
        1 => format!("b \"{}\" {{\n}}\n", inner),
        2 => format!("\"{}\"", inner),
        3 => format!("a = \"{}\"\n", inner),
        4 => format!("\"{}\" = 1\n", inner),
        5 => format!("r \"{}\" \"m\" {{\n}}\n", inner),
        6 => format!("a = [\"{}\", \"z\"]\n", inner),
        _ => format!("b \"k\" \"{}\" m {{ a = 1 }}\n", inner),
    };
    guard(|| match place {
        0 => match fc::parse_str(&doc) {
            Ok(b) => match model::body(&b).as_slice() {
                [MEl::Attr(k, ME::Str(s))] if k == "a" => Ok(Some(s.clone())),
                o => Err(format!("{:?} parses to {:?}", doc, o)),
            },
            Err(_) => Ok(None),
        },
        6 => match fc::parse_str(&doc) {
            Ok(b) => match model::body(&b).as_slice() {
                [MEl::Attr(k, ME::Tuple(t))] if k == "a" => match t.as_slice() {
                    [ME::Str(s), ME::Str(z)] if z == "z" => Ok(Some(s.clone())),
                    o => Err(format!("{:?} parses to {:?}", doc, o)),
                },
                o => Err(format!("{:?} parses to {:?}", doc, o)),
            },
            Err(_) => Ok(None),
        },
        1 => match fc::parse_str(&doc) {
            Ok(b) => match model::body(&b).as_slice() {
                [MEl::Block(b)] if b.labels.len() == 1 => match &b.labels[0] {
                    ML::Lit(s) => Ok(Some(s.clone())),
                    o => Err(format!("{:?} parses to {:?}", doc, o)),
                },
                o => Err(format!("{:?} parses to {:?}", doc, o)),
            },
            Err(_) => Ok(None),
        },
        7 => match fc::parse_str(&doc) {
            Ok(b) => match model::body(&b).as_slice() {
                [MEl::Block(b)] if b.labels.len() == 3 && b.labels[0].text() == "k" && b.labels[2].text() == "m" => match &b.labels[1] {
                    ML::Lit(s) => Ok(Some(s.clone())),
                    o => Err(format!("{:?} parses to {:?}", doc, o)),
                },
                o => Err(format!("{:?} parses to {:?}", doc, o)),
            },
            Err(_) => Ok(None),
        },
        2 => match fc::parser::Expression::parse(&doc) {
            Ok(fc::parser::Expression::String(s)) => Ok(Some(s.to_string())),
            Ok(o) => Err(format!("{:?} parses to {:?}", doc, o)),
            Err(_) => Ok(None),
        },
        3 => match fc::value::from_str(&doc, None) {
            Ok(m) => match model::map(&m).entries.as_slice() {
                [(k, MV::Str(s))] if k == "a" => Ok(Some(s.clone())),
                o => Err(format!("{:?} parses to {:?}", doc, o)),
            },
            Err(_) => Ok(None),
        },
        4 => match fc::value::from_str(&doc, None) {
            Ok(m) => match model::map(&m).entries.as_slice() {
                [(k, MV::Int(1))] => Ok(Some(k.clone())),
                o => Err(format!("{:?} parses to {:?}", doc, o)),
            },
            Err(_) => Ok(None),
        },
        _ => match fc::value::from_str(&doc, None) {
            Ok(m) => match model::map(&m).entries.as_slice() {
                [(k, MV::Block(false, v))] if k == "r" && v.len() == 1 && v[0].0.len() == 2 && v[0].0[1] == "m" => Ok(Some(v[0].0[0].clone())),
                o => Err(format!("{:?} parses to {:?}", doc, o)),
            },
            Err(_) => Ok(None),
        },
    })?
}

fn single_line(place: usize) -> bool {
    matches!(place, 1 | 4 | 5 | 7)
}

fn string_in(place: usize, inner: &str, exp: Option<String>, w: bool) -> Verdict {
    let exp = if single_line(place) && inner.contains(|c| c == '\r' || c == '\n') { None } else { exp };
    let got = parse_in(place, inner)?;
    if got != exp {
        return Err(format!("the quoted text {} in place {}\n  got      {}\n  expected {}", clip(&format!("{:?}", inner)), place, clip(&format!("{:?}", got)), clip(&format!("{:?}", exp))));
    }
    Ok(Obs { class: model::hash(&exp), nontrivial: exp.as_ref().map_or(false, |s| !s.is_empty()), sample: if w { Some(clip(&format!("{:?} -> {:?}", inner, exp))) } else { None } })
}

const ESC: &[(&str, char)] = &[("\\a", '\u{7}'), ("\\b", '\u{8}'), ("\\f", '\u{c}'), ("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t'), ("\\v", '\u{b}'), ("\\\\", '\\'), ("\\\"", '"'), ("\\?", '?')];

fn digits(c: u32, radix: u32, width: usize, upper: bool) -> String {
    let s = match (radix, upper) {
        (8, _) => format!("{:o}", c),
        (_, true) => format!("{:X}", c),
        _ => format!("{:x}", c),
    };
    format!("{:0>1$}", s, width)
}

/// Escapes of the first `n` numbers.
fn pieces(n: usize) -> &'static [String] {
    use std::sync::OnceLock;
    static ALL: [OnceLock<Vec<String>>; 2] = [OnceLock::new(), OnceLock::new()];
    ALL[(n > 9) as usize].get_or_init(|| {
        const N: &[u32] = &[
            0xd83d, 0xde00, 0x41, 0xe9, 0xdbff, 0xdfff, 0xd800, 0xdc00, 0, 1, 7, 9, 0xa, 0x22, 0x5c, 0x7f, 0x80, 0xc3, 0xa9, 0xff, 0x301, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff,
        ];
        let mut v = vec![];
        for c in &N[..n] {
            for (p, radix, width, max) in [("\\U", 16, 8, 8), ("\\u", 16, 4, 4), ("\\u", 16, 1, 4), ("\\x", 16, 2, 2), ("\\", 8, 3, 3)] {
                let d = digits(*c, radix, width, false);
                if d.len() <= max {
                    v.push(format!("{}{}", p, d));
                }
            }
        }
        v.extend(["\\n", "\\\\", "é"].iter().map(|x| x.to_string()));
        v
    })
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "an execution makes the inside of a quoted string, puts it in a place of a document and compares the string found there (or the rejection) with the characters it was made from; non-trivial: accepted and not empty",
    assumptions: &[],
    families: |t| {
        let sizes = ramp::sizes(true);
        vec![
            Family::new("scalars", "every Unicode scalar, raw, alone and between others, in every place", |ch, w| {
                let c = scalar(ch.choose(272) * 4096 + ch.choose(4096));
                let place = ch.choose(PLACES);
                let k = ch.choose(2);
                let (inner, exp) = match k {
                    0 => (c.to_string(), c.to_string()),
                    _ => (format!("é{}\\n{}x", c, c), format!("é{}\n{}x", c, c)),
                };
                ch.note(|| format!("{:?}", inner));
                if c == '"' || c == '\\' {
                    // these need an escape
                    return obs(1, false);
                }
                string_in(place, &inner, Some(exp), w)
            }),
            Family::new("escaped scalars", "every number up to 0x120000 (and 40 beyond) written with \\U (and \\u, \\x and octal digits where it fits), with and without leading zeros, before 5 tails", |ch, w| {
                let hi = ch.choose(272 + 17);
                let c = if hi < 288 {
                    (hi * 4096 + ch.choose(4096)) as u32
                } else {
                    let k = ch.choose(40) as u32;
                    if k < 20 { u32::MAX - k } else { 1 << (k - 20 + 11).min(31) }
                };
                let kind = ch.choose(7);
                let (prefix, radix, width, max) = match kind {
                    0 => ("\\U", 16, 8, 8),
                    1 => ("\\U", 16, 1, 8),
                    2 => ("\\u", 16, 4, 4),
                    3 => ("\\u", 16, 1, 4),
                    4 => ("\\x", 16, 2, 2),
                    5 => ("\\x", 16, 1, 2),
                    _ => ("\\", 8, 3, 3),
                };
                let lower = digits(c, radix, width, false);
                if lower.len() > max {
                    return obs(2, false);
                }
                let upper = lower.contains(|c: char| c.is_ascii_lowercase()) && ch.flag();
                let d = digits(c, radix, width, upper);
                let place = *ch.pick(&[0usize, 1, 3]);
                // a further digit must not be taken when there are enough already
                let tail = if d.len() == max { *ch.pick(&["", "0", "g", "8"]) } else { *ch.pick(&["", "g", " "]) };
                let inner = format!("{}{}{}", prefix, d, tail);
                ch.note(|| inner.clone());
                let exp = std::char::from_u32(c).map(|c| format!("{}{}", c, tail));
                string_in(place, &inner, exp, w)
            }),
            Family::new("escapes together", &format!("every two and three of {} and {} escapes in 5 ways of 30 numbers, with and without something between", pieces(30).len(), pieces(9).len()), move |ch, w| {
                let three = ch.flag();
                let p = pieces(if three { 9 } else { 30 });
                let mut inner = String::new();
                for i in 0..2 + three as usize {
                    if i > 0 {
                        inner.push_str(*ch.pick(&["", "", "a"][three as usize..]));
                    }
                    inner.push_str(ch.pick(p));
                }
                let place = *ch.pick(&[0usize, 1, 3]);
                ch.note(|| inner.clone());
                let exp = unquote(&inner);
                string_in(place, &inner, exp, w)
            }),
            Family::new("octal", "every octal escape of 1 to 3 digits before every character of 9", |ch, w| {
                let n = ch.range(1, 3);
                let d: String = (0..n).map(|_| (b'0' + ch.choose(8) as u8) as char).collect();
                let tail = *ch.pick(&["", "0", "7", "8", "9", "a", "\\n", "é", "\\7"]);
                let place = ch.choose(PLACES);
                let inner = format!("{}{}{}{}", if ch.flag() { "x" } else { "" }, "\\", d, tail);
                ch.note(|| inner.clone());
                let exp = unquote(&inner);
                string_in(place, &inner, exp, w)
            }),
            Family::new("escape letters", "a backslash before every Unicode scalar, and the end", |ch, w| {
                let c = scalar(ch.choose(272) * 4096 + ch.choose(4096));
                let place = *ch.pick(&[0usize, 1, 3, 4]);
                let inner = format!("a\\{}b", c);
                ch.note(|| format!("{:?}", inner));
                let exp = match ESC.iter().find(|(t, _)| t.ends_with(c)) {
                    Some((_, r)) => Some(format!("a{}b", r)),
                    None => unquote(&inner),
                };
                string_in(place, &inner, exp, w)
            }),
            Family::new("words", "every sequence of at most 5 (thorough: 6) of 18 pieces, in 4 (thorough: 8) places", move |ch, w| {
                const A: &[&str] = &["\\n", "\\\\", "\\\"", "\\x", "\\u", "\\U", "\\", "0", "7", "8", "41", "d800", "a", "é", "😀", " ", "\n", "#"];
                let s = gen::word(ch, A, if t { 6 } else { 5 });
                let place = if t { ch.choose(PLACES) } else { *ch.pick(&[0usize, 2, 3, 5]) };
                ch.note(|| s.clone());
                if closes_early(&s) {
                    // what follows the closing quote is not the string's business
                    return obs(1, false);
                }
                let exp = unquote(&s);
                string_in(place, &s, exp, w)
            }),
            Family::new("growth", &format!("6 kinds of string of {} sizes in every place", sizes.len()), move |ch, w| {
                let n = *ch.pick(&sizes);
                let place = ch.choose(PLACES);
                let (inner, exp): (String, String) = match ch.choose(6) {
                    0 => ("x".repeat(n), "x".repeat(n)),
                    1 => ("é".repeat(n), "é".repeat(n)),
                    2 => ("\\n".repeat(n), "\n".repeat(n)),
                    3 => ("a\\u00e9😀\\\\".repeat(n), "aé😀\\".repeat(n)),
                    4 => (format!("{}\\\"", "x".repeat(n)), format!("{}\"", "x".repeat(n))),
                    _ => (format!("\\x41{}\\101{}", " ".repeat(n), "7".repeat(n)), format!("A{}A{}", " ".repeat(n), "7".repeat(n))),
                };
                ch.note(|| clip(&inner));
                string_in(place, &inner, Some(exp), w)
            }),
        ]
    },
};

/// The reference reading of the inside of a quoted string that has no unescaped quote.
fn unquote(inner: &str) -> Option<String> {
    let q = format!("\"{}\"", inner);
    match (refparse::P { s: &q }).quoted(0, true) {
        Some((p, s)) if p == q.len() => Some(s),
        _ => None,
    }
}

/// Whether a quote inside closes the string: the text then is a shorter string and something else.
fn closes_early(inner: &str) -> bool {
    let mut esc = false;
    for c in inner.chars() {
        match c {
            _ if esc => esc = false,
            '\\' => esc = true,
            '"' => return true,
            _ => {}
        }
    }
    false
}

// ---------------------------------------------------------------- heredocs

const LINES: &[&str] = &["x", "", " ", "   ", "E x", "xE", "\"q\" # c", "\\n ${a}", "é 😀", "<<E", "EE", "/* }", "y z ", "\tx"];

/// A heredoc made from its lines. `text` is what it stands for.
fn heredoc_text(lines: &[String], dash: bool, indent: usize, eol: &str) -> String {
    let kept: Vec<String> = lines
        .iter()
        .map(|l| {
            if !dash {
                return l.clone();
            }
            let lead = l.chars().take_while(|c| *c == ' ').count();
            l.chars().skip(lead.min(indent)).collect()
        })
        .collect();
    kept.join(eol)
}

fn heredoc_doc(place: usize, head: &str, lines: &[String], close: &str, eol: &str) -> String {
    let mut h = format!("{}{}", head, eol);
    for l in lines {
        h.push_str(l);
        h.push_str(eol);
    }
    h.push_str(close);
    match place {
        0 => format!("a = {}{}", h, eol),
        1 => format!("p = 1{e}b {{{e}  a = {h}{e}}}{e}q = 2{e}", e = eol, h = h),
        2 => format!("a = [{}{}, 1]{}", h, eol, eol),
        3 => format!("a = {{ k = {h}{e}  l = 1{e} }}{e}", e = eol, h = h),
        4 => format!("a = {}{}", h, eol),
        _ => format!("a = {h}{e}c = {h}{e}", e = eol, h = h),
    }
}

fn heredoc_in(place: usize, doc: &str, exp: &str, w: bool) -> Verdict {
    let s = || gen::st(exp);
    let want: Result<MBody, ()> = Ok(match place {
        0 => vec![gen::attr("a", s())],
        1 => vec![gen::attr("p", gen::num("1")), gen::blk("b", vec![], vec![gen::attr("a", s())]), gen::attr("q", gen::num("2"))],
        2 => vec![gen::attr("a", ME::Tuple(vec![s(), gen::num("1")]))],
        3 => vec![gen::attr("a", gen::obj(vec![("k", s()), ("l", gen::num("1"))]))],
        5 => vec![gen::attr("a", s()), gen::attr("c", s())],
        _ => vec![],
    });
    let ok = if place == 4 {
        let got = guard(|| fc::value::from_str(doc, None).map(|m| model::map(&m)).map_err(|e| e.to_string()))?;
        match &got {
            Ok(m) if m.entries == vec![("a".to_string(), MV::Str(exp.to_string()))] => Ok(()),
            o => Err(format!("{:?}", o)),
        }
    } else {
        let got = guard(|| fc::parse_str(doc).map(|b| model::body(&b)).map_err(|_| ()))?;
        if got == want {
            Ok(())
        } else {
            Err(format!("{:?}", got))
        }
    };
    match ok {
        Err(g) => Err(format!("input {}\n  got      {}\n  expected {}", clip(&format!("{:?}", doc)), clip(&g), clip(&format!("{:?}", exp)))),
        Ok(()) => Ok(Obs { class: model::hash(&exp), nontrivial: !exp.is_empty(), sample: if w { Some(clip(&format!("{:?} -> {:?}", doc, exp))) } else { None } }),
    }
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "an execution chooses a heredoc's lines, marker, flavour, indentation and line ends, writes it in a document, and compares the string parsed with the text computed from the lines chosen; non-trivial: the text is not empty",
    assumptions: &[],
    families: |t| {
        let sizes = ramp::sizes(true);
        let max = if t { 4 } else { 3 };
        vec![
            Family::new("lines", &format!("every content of at most {} lines of {} kinds with 4 indents, both flavours, 4 marker indents, both line ends", max, LINES.len()), move |ch, w| {
                let n = ch.range(0, max);
                let mut lines = vec![];
                for _ in 0..n {
                    let l = *ch.pick(LINES);
                    let i = if n < 3 { *ch.pick(&[0usize, 1, 2, 5]) } else { *ch.pick(&[0usize, 2]) };
                    lines.push(format!("{}{}", " ".repeat(i), l));
                }
                let dash = ch.flag();
                let indent = *ch.pick(&[0usize, 1, 2, 4]);
                let eol = *ch.pick(&["\n", "\r\n"]);
                let head = if dash { "<<-E" } else { "<<E" };
                let close = format!("{}E", " ".repeat(indent));
                let doc = heredoc_doc(0, head, &lines, &close, eol);
                ch.note(|| doc.clone());
                let exp = heredoc_text(&lines, dash, indent, eol);
                heredoc_in(0, &doc, &exp, w)
            }),
            Family::new("places", "every content of at most 2 lines with 5 indents, 7 markers, both flavours, 5 marker indents, both line ends, in 6 places", |ch, w| {
                let n = ch.range(0, 2);
                let mut lines = vec![];
                let marker = *ch.pick(&["E", "EOF", "é", "_", "1", "E1_É", "a"]);
                for _ in 0..n {
                    let l = *ch.pick(&["x", "", " ", "é", "\"", "E x", "}", "#", "MM", "M-", "-M"]);
                    let i = *ch.pick(&[0usize, 1, 2, 3, 9]);
                    lines.push(format!("{}{}", " ".repeat(i), l.replace('M', marker)));
                }
                let dash = ch.flag();
                let indent = *ch.pick(&[0usize, 1, 2, 3, 8]);
                let eol = *ch.pick(&["\n", "\r\n"]);
                let place = ch.choose(6);
                let head = format!("<<{}{}", if dash { "-" } else { "" }, marker);
                let close = format!("{}{}", " ".repeat(indent), marker);
                let doc = heredoc_doc(place, &head, &lines, &close, eol);
                ch.note(|| doc.clone());
                if lines.iter().any(|l| l.trim() == marker) {
                    // that line closes it
                    return obs(1, false);
                }
                // the marker with nothing but blanks before and a line end after it closes the heredoc
                heredoc_in(place, &doc, &heredoc_text(&lines, dash, indent, eol), w)
            }),
            Family::new("closing", "every line of at most 4 of 9 pieces as the line that may close a heredoc", |ch, w| {
                let l = gen::word(ch, &["E", " ", "\t", "x", "-", ",", "\"", "\r", "é"], 4);
                let dash = ch.flag();
                let head = if dash { "<<-E" } else { "<<E" };
                let doc = format!("a = {}\nx\n{}\ny\nE\n", head, l);
                ch.note(|| doc.clone());
                let closes = {
                    let t = l.trim_start_matches(|c| c == ' ' || c == '\t');
                    t == "E" || t == "E\r"
                };
                let got = guard(|| fc::parse_str(&doc).map(|b| model::body(&b)).map_err(|_| ()))?;
                // when the line closes, the rest ("y") is not a document
                let exp = if closes { Err(()) } else { Ok(vec![gen::attr("a", gen::st(&format!("x\n{}\ny", l)))]) };
                if got != exp {
                    return Err(format!("input {:?}\n  got      {:?}\n  expected {:?}", doc, got, exp));
                }
                Ok(Obs { class: model::hash(&exp), nontrivial: !closes, sample: if w { Some(doc) } else { None } })
            }),
            Family::new("scalars", "every Unicode scalar alone on a line, first on a line after too few spaces, and in the marker", |ch, w| {
                let c = scalar(ch.choose(272) * 4096 + ch.choose(4096));
                let k = ch.choose(3);
                if c == '\n' || c == '\r' || (c == 'E' && k < 2) {
                    return obs(1, false);
                }
                let (doc, exp) = match k {
                    0 => (format!("a = <<E\n{}\nE\n", c), Some(c.to_string())),
                    1 => (format!("a = <<-E\n {}x\n  {}\n  E\n", c, c), {
                        let rest = if c == ' ' { "x".to_string() } else { format!("{}x", c) };
                        // the closing line's indentation is 2; a further blank before the text is content
                        Some(format!("{}\n{}", rest, c))
                    }),
                    _ => {
                        let ok = c.is_alphanumeric() || c == '_';
                        (format!("a = <<{}E\nx\n {}E\n", c, c), if ok { Some("x".to_string()) } else if c == '-' { None } else { None })
                    }
                };
                ch.note(|| format!("{:?}", doc));
                if k == 2 && c == '-' {
                    return obs(2, false);
                }
                let got = guard(|| fc::parse_str(&doc).map(|b| model::body(&b)).map_err(|_| ()))?;
                let want = match &exp {
                    Some(e) => Ok(vec![gen::attr("a", gen::st(e))]),
                    None => Err(()),
                };
                if got != want {
                    return Err(format!("input {:?}\n  got      {:?}\n  expected {:?}", doc, got, want));
                }
                Ok(Obs { class: model::hash(&exp), nontrivial: exp.is_some(), sample: if w { Some(format!("{:?}", doc)) } else { None } })
            }),
            Family::new("growth", &format!("8 kinds of heredoc of {} sizes, both flavours, in 6 places", sizes.len()), move |ch, w| {
                let n = *ch.pick(&sizes);
                let k = ch.choose(8);
                let place = ch.choose(6);
                let dash = ch.flag();
                let mut marker = "E".to_string();
                let mut indent = 0;
                let lines: Vec<String> = match k {
                    0 => vec!["x".repeat(n)],
                    1 => vec!["é".repeat(n)],
                    2 => (0..n).map(|i| i.to_string()).collect(),
                    3 => vec![String::new(); n],
                    4 => {
                        indent = n.min(1025);
                        (0..6).map(|i| format!("{}x", " ".repeat((indent + 3).saturating_sub(i)))).collect()
                    }
                    5 => {
                        marker = "M".repeat(n.max(1));
                        vec!["M".repeat(n.max(1) - 1) + " ", marker.clone() + "M"]
                    }
                    6 => (0..n).map(|i| format!("{}é", " ".repeat(i % 5))).collect(),
                    _ => vec!["E E\tE\\".to_string(); n],
                };
                if k == 6 {
                    indent = 2;
                }
                let head = format!("<<{}{}", if dash { "-" } else { "" }, marker);
                let close = format!("{}{}", " ".repeat(indent), marker);
                let doc = heredoc_doc(place, &head, &lines, &close, "\n");
                ch.note(|| clip(&doc));
                heredoc_in(place, &doc, &heredoc_text(&lines, dash, indent, "\n"), w)
            }),
        ]
    },
};

// ---------------------------------------------------------------- identifiers

/// Puts a word where a name is expected; gives the name found, or `None` when rejected.
fn name_in(place: usize, name: &str) -> Result<Option<String>, String> {
    let doc = match place {
        0 => format!("{} = 1\n", name),
        1 => format!("{}{{}}\n", name),
        2 => format!("b {} {{}}\n", name),
        3 => format!("a = {{{}=1}}\n", name),
        4 => format!("{}=1\n", name),
        _ => format!("{} {{\n}}\n", name),
    };
    guard(|| {
        if place < 4 {
            match fc::parse_str(&doc) {
                Err(_) => Ok(None),
                Ok(b) => match (place, model::body(&b).as_slice()) {
                    (0, [MEl::Attr(k, ME::Num(_))]) => Ok(Some(k.clone())),
                    (1, [MEl::Block(b)]) if b.labels.is_empty() && b.body.is_empty() => Ok(Some(b.ty.clone())),
                    (2, [MEl::Block(b)]) if b.labels.len() == 1 => match &b.labels[0] {
                        ML::Ident(s) => Ok(Some(s.clone())),
                        o => Err(format!("{:?} parses to {:?}", doc, o)),
                    },
                    (3, [MEl::Attr(_, ME::Object(o))]) if o.len() == 1 => match &o[0].0 {
                        MK::Ident(s) => Ok(Some(s.clone())),
                        MK::Expr(_) => Ok(None),
                    },
                    (_, o) => Err(format!("{:?} parses to {:?}", doc, o)),
                },
            }
        } else {
            match fc::value::from_str(&doc, None) {
                Err(_) => Ok(None),
                Ok(m) => match (place, model::map(&m).entries.as_slice()) {
                    (4, [(k, MV::Int(1))]) => Ok(Some(k.clone())),
                    (_, [(k, MV::Object(v))]) if v.len() == 1 => Ok(Some(k.clone())),
                    (_, o) => Err(format!("{:?} parses to {:?}", doc, o)),
                },
            }
        }
    })?
}

fn is_name(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() {
        Some(c) if c == '_' || unic_ucd_ident::is_id_start(c) => it.all(|c| c == '-' || unic_ucd_ident::is_id_continue(c)),
        _ => false,
    }
}

fn check_name(place: usize, name: &str, w: bool) -> Verdict {
    let exp = if is_name(name) { Some(name.to_string()) } else { None };
    let got = name_in(place, name)?;
    if got != exp {
        return Err(format!("the name {} in place {}\n  got      {}\n  expected {}", clip(&format!("{:?}", name)), place, clip(&format!("{:?}", got)), clip(&format!("{:?}", exp))));
    }
    Ok(Obs { class: model::hash(&exp), nontrivial: exp.is_some(), sample: if w { Some(clip(name)) } else { None } })
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "an execution makes a word, puts it where a name is expected and compares the name found (or the rejection) with the definition over the Unicode properties; non-trivial: the word is a name",
    assumptions: &["the tables of unic-ucd-ident 0.9"],
    families: |t| {
        let sizes = ramp::sizes(true);
        vec![
            Family::new("scalars", "every Unicode scalar first, second between, and last in a name, in 6 places", |ch, w| {
                let i = ch.choose(272) * 4096 + ch.choose(4096);
                if i >= scalars() {
                    return obs(1, false);
                }
                let c = scalar(i);
                let place = ch.choose(6);
                let k = ch.choose(4);
                // characters that are blanks, comments, quotes or punctuation of the dialect end a
                // name by meaning something else
                if " \t\r\n\"#/={}[](),<".contains(c) || (k < 1 && (c.is_ascii_digit() || "+-.".contains(c))) {
                    return obs(1, false);
                }
                let name = match k {
                    0 => c.to_string(),
                    1 => format!("a{}b", c),
                    2 => format!("_{}", c),
                    _ => format!("é-{}", c),
                };
                ch.note(|| format!("{:?}", name));
                check_name(place, &name, w)
            }),
            Family::new("words", "every word of at most 5 (thorough: 6) of 10 letters in 6 places", move |ch, w| {
                let name = gen::word(ch, &["a", "Z", "1", "_", "-", "é", "\u{301}", "·", ".", "老"], if t { 6 } else { 5 });
                let place = ch.choose(6);
                ch.note(|| format!("{:?}", name));
                // names that are also literals or numbers, and nothing at all, mean something else
                if name.is_empty() || (place == 3 && !is_name(&name)) {
                    return obs(1, false);
                }
                check_name(place, &name, w)
            }),
            Family::new("keywords", "12 words that begin like literals in 6 places", |ch, w| {
                let name = *ch.pick(&["null", "true", "false", "nullx", "truer", "true-", "null_", "falsey", "e1", "E", "x41", "EOF"]);
                let place = ch.choose(6);
                ch.note(|| name.to_string());
                check_name(place, name, w)
            }),
            Family::new("growth", &format!("5 kinds of name of {} lengths in 6 places", sizes.len()), move |ch, w| {
                let n = (*ch.pick(&sizes)).max(1);
                let place = ch.choose(6);
                let name = match ch.choose(5) {
                    0 => "a".repeat(n),
                    1 => "é".repeat(n),
                    2 => format!("_{}", "-".repeat(n)),
                    3 => format!("a{}", "1".repeat(n)),
                    _ => format!("{}.", "b".repeat(n)),
                };
                ch.note(|| clip(&name));
                check_name(place, &name, w)
            }),
        ]
    },
};
