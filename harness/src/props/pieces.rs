//! C31: the parsers of single constructs.
use super::accept;
use crate::explore::*;
use crate::model::{self, *};
use crate::refparse::{self, P};
use crate::{gen, ramp, Prop};
use ferrous_chloride::parser;
use nom::types::CompleteStr;

/// What is taken, as the number of bytes and the value.
type Taken = Option<(usize, String)>;

fn took<'a, T, F: FnOnce(T) -> String>(s: &str, r: nom::IResult<CompleteStr<'a>, T, u32>, f: F) -> Result<Taken, String> {
    Ok(match r {
        Ok((rest, v)) => {
            if !s.ends_with(rest.0) {
                return Err(format!("the rest {:?} is no end of the text", clip(rest.0)));
            }
            Some((s.len() - rest.0.len(), f(v)))
        }
        Err(nom::Err::Incomplete(_)) => return Err("asks for more of a complete text".to_string()),
        Err(nom::Err::Failure(_)) if bad_escape(s) => Some((usize::MAX, String::new())),
        Err(_) => None,
    })
}

/// An escape that stands for nothing is fatal: what comes to it fails as a whole, even where
/// something else could be tried.
fn bad_escape(s: &str) -> bool {
    let p = P { s };
    s.match_indices('\\').any(|(i, _)| p.escape(i + 1).is_none())
}

fn show<T: std::fmt::Debug>(t: T) -> String {
    format!("{:?}", t)
}

struct Piece {
    name: &'static str,
    real: fn(&str) -> Result<Taken, String>,
    reference: fn(&P) -> Taken,
}

fn unit(p: Option<usize>) -> Taken {
    p.map(|q| (q, String::new()))
}
fn with<T: std::fmt::Debug>(r: Option<(usize, T)>) -> Taken {
    r.map(|(q, v)| (q, show(v)))
}
fn comment(p: &P, start: &str) -> Taken {
    if !p.at(0, start) {
        return None;
    }
    let q = p.line_comment(0)?;
    let text = p.s[start.len()..q].trim_end_matches('\n');
    Some((q, show(text.strip_suffix('\r').unwrap_or(text))))
}
fn line(p: &P) -> Taken {
    comment(p, "#").or_else(|| comment(p, "//"))
}
fn end_of_heredoc(p: &P, dash: bool) -> Taken {
    let q = p.eol(0)?;
    let blanks = p.s[q..].bytes().take_while(|b| *b == b' ' || *b == b'\t').count();
    let r = p.tag(q + blanks, "E")?;
    p.eol(r)?;
    Some((r, show(if dash { blanks } else { 0 })))
}
fn labels(p: &P) -> (usize, Vec<ML>) {
    let mut at = 0;
    let mut out = vec![];
    loop {
        let q = p.iws(at);
        if let Some((r, i)) = p.ident(q) {
            out.push(ML::Ident(i));
            at = p.iws(r);
        } else if let Some((r, s)) = p.quoted(q, false) {
            out.push(ML::Lit(s));
            at = p.iws(r);
        } else {
            return (at, out);
        }
    }
}
fn elements(p: &P) -> (usize, Vec<(MK, ME)>) {
    let mut at = p.ws(0);
    let mut out = vec![];
    while let Some((q, e)) = p.object_element(at) {
        match separator(p, q) {
            Some(r) => {
                out.push(e);
                at = p.ws(r);
            }
            None => break,
        }
    }
    (p.ws(at), out)
}
fn separator(p: &P, q: usize) -> Option<usize> {
    p.tag(q, ",").or_else(|| p.newline(q)).or_else(|| if p.at(q, "}") { Some(q) } else { None })
}
fn one(b: MEl) -> String {
    show(b)
}

macro_rules! piece {
    ($name:expr, $parser:expr, $f:expr, $r:expr) => {
        Piece { name: $name, real: |s| took(s, $parser(CompleteStr(s)), $f), reference: $r }
    };
}

fn pieces() -> Vec<Piece> {
    use parser::*;
    vec![
        piece!("inline_comment", whitespace::inline_comment, |c| show(c.0), |p| p.inline_comment(0).map(|q| (q, show(&p.s[2..q - 2])))),
        piece!("hash_comment", whitespace::hash_comment, |c| show(c.0), |p| comment(p, "#")),
        piece!("slash_comment", whitespace::slash_comment, |c| show(c.0), |p| comment(p, "//")),
        piece!("line_comment", whitespace::line_comment, |c| show(c.0), line),
        piece!("inline_whitespace", whitespace::inline_whitespace, |_| String::new(), |p| unit(Some(p.iws(0)))),
        piece!("whitespace", whitespace::whitespace, |_| String::new(), |p| unit(Some(p.ws(0)))),
        piece!("newline", whitespace::newline, |_| String::new(), |p| unit(p.newline(0))),
        piece!("null", null::null, |_| String::new(), |p| unit(p.tag(0, "null"))),
        piece!("boolean", boolean::boolean, show, |p| p.tag(0, "true").map(|q| (q, show(true))).or_else(|| p.tag(0, "false").map(|q| (q, show(false))))),
        piece!("identifier", identifier::identifier, show, |p| with(p.ident(0))),
        piece!("number", number::number, |n| show(n.to_string()), |p| with(p.number(0))),
        piece!("string_literal", string::string_literal, show, |p| with(p.quoted(0, false))),
        piece!("heredoc_begin", string::heredoc_begin, |h| show((h.identifier.0, h.indented)), |p| {
            let q = p.tag(0, "<<")?;
            let (q, dash) = p.tag(q, "-").map_or((q, false), |r| (r, true));
            let n = p.s[q..].find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(p.s.len() - q);
            p.eol(q + n)?;
            if n == 0 {
                return None;
            }
            Some((q + n, show((&p.s[q..q + n], dash))))
        }),
        piece!("heredoc_end", |s| string::heredoc_end(s, &string::HereDoc { identifier: CompleteStr("E"), indented: true }), show, |p| end_of_heredoc(p, true)),
        piece!("heredoc_end (without dash)", |s| string::heredoc_end(s, &string::HereDoc { identifier: CompleteStr("E"), indented: false }), show, |p| end_of_heredoc(p, false)),
        piece!("heredoc_string", string::heredoc_string, show, |p| with(p.heredoc(0))),
        piece!("string", string::string, show, |p| with(p.string(0))),
        piece!("tuple", tuple::tuple, |t: tuple::Tuple| show(t.iter().map(model::expr).collect::<Vec<_>>()), |p| with(p.tuple(0))),
        piece!("object", object::object, |o: object::Object| show(o.iter().map(|(k, v)| (model::okey(k), model::expr(v))).collect::<Vec<_>>()), |p| with(p.object(0))),
        piece!("object_body", object::object_body, |o: object::Object| show(o.iter().map(|(k, v)| (model::okey(k), model::expr(v))).collect::<Vec<_>>()), |p| with(Some(elements(p)))),
        piece!("object_element", object::object_element, |(k, v): object::ObjectElement| show((model::okey(&k), model::expr(&v))), |p| with(p.object_element(0))),
        piece!("object_element_identifier", object::object_element_identifier, |k| show(model::okey(&k)), |p| {
            with(p.ident(0).map(|(q, i)| (q, MK::Ident(i))).or_else(|| p.expr(0).map(|(q, _)| (q, MK::Expr(p.s[..q].to_string())))))
        }),
        piece!("object_separator", object::object_separator, |_| String::new(), |p| unit(separator(p, 0))),
        piece!("object_begin", object::object_begin, |_| String::new(), |p| unit(p.tag(0, "{"))),
        piece!("object_end", object::object_end, |_| String::new(), |p| unit(p.tag(0, "}"))),
        piece!("expression", expression::expression, |e| show(model::expr(&e)), |p| with(p.expr(0))),
        piece!("bracket_expression", expression::bracket_expression, |e| show(model::expr(&e)), |p| {
            let q = p.tag(p.ws(0), "(")?;
            let (q, e) = p.expr(p.ws(q))?;
            Some((p.tag(p.ws(q), ")")?, show(e)))
        }),
        piece!("attribute", attribute::attribute, |(k, v)| show((k.to_string(), model::expr(&v))), |p| with(p.attribute(0))),
        piece!("block_label", block::block_label, |l| show(model::label(&l)), |p| with(p.ident(0).map(|(q, i)| (q, ML::Ident(i))).or_else(|| p.quoted(0, false).map(|(q, s)| (q, ML::Lit(s)))))),
        piece!("block_labels", block::block_labels, |l: Vec<block::BlockLabel>| show(l.iter().map(model::label).collect::<Vec<_>>()), |p| with(Some(labels(p)))),
        piece!("one_line_block_body", block::one_line_block_body, |a: Option<attribute::Attribute>| show(a.map(|(k, v)| (k.to_string(), model::expr(&v)))), |p| {
            with(Some(match p.attribute(0) {
                Some((q, a)) => (q, Some(a)),
                None => (0, None),
            }))
        }),
        piece!("one_line_block", block::one_line_block, |b| show(model::block(&b)), |p| with(p.one_line(0))),
        piece!("block", block::block, |b| show(model::block(&b)), |p| with(p.block(0))),
        piece!("body_element", body::body_element, |e| one(model::element(&e)), |p| {
            p.attribute(0)
                .map(|(q, (k, v))| (q, MEl::Attr(k, v)))
                .or_else(|| p.one_line(0).or_else(|| p.block(0)).map(|(q, b)| (q, MEl::Block(b))))
                .map(|(q, e)| (q, one(e)))
        }),
        piece!("body", body::body, |b: body::Body| show(model::body(&b)), |p| with(p.body(0))),
        piece!("config_file", config_file, |b: body::Body| show(model::body(&b)), |p| with(refparse::config(p.s).map(|b| (p.s.len(), b)))),
    ]
}

fn compare(t: &str, list: &[Piece], w: bool) -> Verdict {
    let p = P { s: t };
    let mut h = 0u64;
    let mut any = false;
    for x in list {
        let got = guard(|| (x.real)(t))?.map_err(|e| format!("{} of {:?}: {}", x.name, clip(t), e))?;
        if matches!(got, Some((usize::MAX, _))) {
            continue;
        }
        let want = (x.reference)(&p);
        if got != want {
            return Err(format!("{} of {:?} takes {} instead of {}", x.name, clip(t), clip(&show(&got)), clip(&show(&want))));
        }
        if let Some((n, v)) = got {
            any |= n > 0;
            h = model::hash(&(h, x.name, n, v));
        }
    }
    obs_with(h, any, w, || t.to_string())
}

fn words(name: &'static str, alphabet: &'static [&'static str], n: usize) -> Family {
    let list = pieces();
    Family::new(name, &format!("every sequence of at most {} of {:?}", n, alphabet), move |ch, w| {
        let t = gen::word(ch, alphabet, n);
        ch.note(|| format!("{:?}", t));
        compare(&t, &list, w)
    })
}

fn tails() -> Family {
    let mut starts: Vec<String> = vec![];
    for (v, _, _) in gen::values() {
        starts.push(v);
    }
    for t in accept::texts() {
        if t.len() < 120 {
            starts.push(t.clone());
            starts.push(t.trim_end().to_string());
        }
    }
    for t in ["# c\n", "// c\r\n", "/* c */", "#\n", "//\n", "/**/", "\n# é\n", "/* é\n */", "<<E\n", "<<-E\r\n", "\nE\n", "\r\n \tE\n", "a", "é-1", "\"a\"", "\"\\n\" b \"\"", "a \"b\" c", "}", "{", ",", "null", "true", "(1)", "true1", "nulla"] {
        starts.push(t.to_string());
    }
    starts.sort();
    starts.dedup();
    const TAILS: &[&str] = &[
        "", " ", "\n", "\r\n", "\r", "\t", "#", "# c\n", "# c", "//", "//\n", "/", "/*", "/* c */", "/* c */\n", "*/", "a", "é", "1", ".", "-", "e1", "_", "\"", "\\", "{", "}", "[", "]", "(", ")", ",", "=", "= 1", "<<", "E\n", "\nE\n", "\u{0}", "\u{a0}",
        "\u{85}", "\u{301}", "\u{feff}", "😀", ";",
    ];
    let list = pieces();
    Family::new("tails", &format!("each of {} texts cut at every character and followed by one of {} tails, after one of 5 blanks", starts.len(), TAILS.len()), move |ch, w| {
        let t = ch.pick(&starts);
        let at: Vec<usize> = t.char_indices().map(|x| x.0).chain(Some(t.len())).collect();
        let cut = at[at.len() - 1 - ch.choose(at.len())];
        let t = format!("{}{}{}", ch.pick(&["", " ", "\n", "\t/* c */", "# c\n"]), &t[..cut], ch.pick(TAILS));
        ch.note(|| format!("{:?}", t));
        compare(&t, &list, w)
    })
}

fn scalars() -> Family {
    let list = pieces();
    Family::new("scalars", "every Unicode scalar in 8 places", move |ch, w| {
        let hi = ch.choose(0x1100) as u32;
        let c = match std::char::from_u32(hi * 256 + ch.choose(256) as u32) {
            Some(c) => c,
            None => return obs(0, false),
        };
        let t = match ch.choose(8) {
            0 => format!("{}", c),
            1 => format!("a{}", c),
            2 => format!("\"{}\"", c),
            3 => format!("#{}\n", c),
            4 => format!("/*{}*/", c),
            5 => format!(" {}", c),
            6 => format!("1{}", c),
            _ => format!("<<E{}\n{}\nE{}\n", c, c, c),
        };
        ch.note(|| format!("{:?}", t));
        compare(&t, &list, w)
    })
}

fn growth(big: bool) -> Family {
    let list = pieces();
    let mut sizes: Vec<usize> = ramp::sizes(false);
    if big {
        sizes.extend([2048, 4095, 4096, 4097]);
    }
    sizes.extend(ramp::large(false));
    const KINDS: &[(&str, &str, &str)] = &[
        ("#", "c", "\nx"), ("//", "é", "\r\nx"), ("/*", "*", "*/x"), ("", " ", "x"), ("", "\n", "x"), ("", "/**/", "x"), ("", "#\n", "x"), ("", "a", " x"), ("", "1", "x"), ("1.", "0", "e1x"), ("\"", "\\n", "\"x"), ("\"", "é", "\"x"), ("<<", "E", "\nx"),
        ("<<E\n", "x\n", "E\nx"), ("<<-E\n", " x\n", " E\nx"), ("\n", " ", "E\nx"), ("[", "1,", "]x"), ("{", "a=1,", "}x"), ("{\n", "a=1\n", "}x"), ("a ", "b ", "{}x"), ("", "\"l\" ", "x"), ("a {\n", "b = 1\n", "}x"), ("", "a = 1\n", "x"), ("", "a {}\n", "x"),
    ];
    Family::new("growth", &format!("{} constructs of {} sizes up to {}", KINDS.len(), sizes.len(), sizes[sizes.len() - 1]), move |ch, w| {
        let (a, b, c) = *ch.pick(KINDS);
        let n = *ch.pick(&sizes);
        let n = if n > 60000 && b.contains('=') { n / 16 } else { n };
        ch.note(|| format!("{:?} {} x {:?} {:?}", a, n, b, c));
        compare(&format!("{}{}{}", a, b.repeat(n), c), &list, w)
    })
    .limit(120)
}

pub const C31: Prop = Prop {
    id: "C31",
    rule: "an execution makes a text, applies every public parser of a single construct to it and compares success, number of bytes taken and value with those of the independent recogniser; non-trivial: some parser takes something",
    assumptions: &["the constructs are those of the recogniser (harness/src/refparse.rs)"],
    families: |t| {
        vec![
            words("characters", accept::CHARS, if t { 6 } else { 5 }),
            words("tokens", accept::TOKENS, if t { 5 } else { 4 }),
            words("blanks", &["\n", "\r", " ", "\t", "#", "/", "*", "a", "é"], if t { 7 } else { 6 }),
            words("heredocs", &["<<", "-", "E", "\n", "\r\n", " ", "\t", "x", "é"], if t { 7 } else { 6 }),
            words("numbers", &["0", "1", ".", "e", "E", "+", "-", "x"], if t { 7 } else { 6 }),
            words("strings", &["\"", "\\", "n", "a", "é", "\n", "x4", "1", "u"], if t { 6 } else { 5 }),
            words("bodies", &["a = 1", "a {", "a \"l\" b {", "\n", "}", " ", "#c\n", "/*c*/", "b = [", "]", "{", ","], if t { 6 } else { 5 }),
            tails(),
            scalars(),
            growth(t),
        ]
    },
};
