use crate::explore::*;
use crate::model::*;
use crate::render::{plain, Render};
use crate::{gen, model, ramp, refparse, Prop};
use ferrous_chloride as fc;

/// The text parses to exactly the expected document.
pub fn expect(text: &str, exp: &MBody, w: bool) -> Verdict {
    let got = guard(|| fc::parse_str(text).map(|b| model::body(&b)).map_err(|e| e.to_string()))?;
    match got {
        Ok(b) if b == *exp => Ok(Obs {
            class: model::hash(exp),
            nontrivial: !exp.is_empty(),
            sample: if w { Some(clip(&format!("{:?}", text))) } else { None },
        }),
        other => Err(format!(
            "input {}\n  got      {}\n  expected {}",
            clip(&format!("{:?}", text)),
            clip(&format!("{:?}", other)),
            clip(&format!("{:?}", exp))
        )),
    }
}

fn shapes(n: usize, depth: usize) -> Family {
    Family::new("shapes", &format!("every document of at most {} elements of 7 kinds, nested at most {} deep, each block that fits on one line written both ways", n, depth), move |ch, w| {
        let mut budget = n;
        let m = gen::body(ch, &mut budget, depth);
        let text = {
            let mut flags = vec![];
            // one choice per block that fits on one line, in document order
            fn walk(ch: &mut Chooser, b: &[MEl], flags: &mut Vec<bool>) {
                for e in b {
                    if let MEl::Block(b) = e {
                        match b.body.as_slice() {
                            [] | [MEl::Attr(_, _)] => flags.push(ch.flag()),
                            _ => {}
                        }
                        walk(ch, &b.body, flags);
                    }
                }
            }
            walk(ch, &m, &mut flags);
            let mut it = flags.into_iter();
            let mut r = Render::new(None);
            r.body(&m, &mut |_| it.next().unwrap_or(false));
            r.out
        };
        ch.note(|| text.clone());
        expect(&text, &m, w)
    })
}

/// Every value in every place an attribute can be in, followed by every kind of element.
fn placed_values() -> Family {
    let values = gen::values();
    Family::new("values", &format!("{} ways to write a value in 7 places, followed by 6 kinds of element, with 3 ends of line", values.len()), move |ch, w| {
        let (vt, ve, eol) = ch.pick(&values).clone();
        let place = ch.choose(7);
        let follow = ch.choose(6);
        let nl = *ch.pick(&["\n", "\r\n", " # c\n"]);
        let nl = if eol && nl == " # c\n" { "\n" } else { nl };
        let a = gen::attr("v", ve.clone());
        let (mut text, mut exp) = match place {
            0 => (format!("v = {}{}", vt, nl), vec![a]),
            1 => (format!("v={}{}", vt, nl), vec![a]),
            2 => (format!("w = 0\nv = {}{}", vt, nl), vec![gen::attr("w", gen::num("0")), a]),
            3 => (format!("b {{\n  v = {}{}}}{}", vt, nl, nl), vec![gen::blk("b", vec![], vec![a])]),
            4 => (
                format!("b x \"y\" {{\n c {{\n v = {}{} w = 1\n}}\n}}\n", vt, nl),
                vec![gen::blk("b", vec![gen::idl("x"), gen::lit("y")], vec![gen::blk("c", vec![], vec![a, gen::attr("w", gen::num("1"))])])],
            ),
            5 if eol => (format!("v = [{}\n]{}", vt, nl), vec![gen::attr("v", ME::Tuple(vec![ve]))]),
            5 => (format!("b {{ v = {} }}{}", vt, nl), vec![gen::blk("b", vec![], vec![a])]),
            _ if eol => (
                format!("v = {{ k = {}\n j = 1 }}{}", vt, nl),
                vec![gen::attr("v", gen::obj(vec![("k", ve), ("j", gen::num("1"))]))],
            ),
            _ => (
                format!("v = [{}, {{ k = {} }}, ({})]{}", vt, vt, vt, nl),
                vec![gen::attr("v", ME::Tuple(vec![ve.clone(), gen::obj(vec![("k", ve.clone())]), ve]))],
            ),
        };
        let (ft, fe) = match follow {
            0 => ("", vec![]),
            1 => ("z = 9\n", vec![gen::attr("z", gen::num("9"))]),
            2 => ("z {}\n", vec![gen::blk("z", vec![], vec![])]),
            3 => ("\n# c\nz \"l\" {\n}\n", vec![gen::blk("z", vec![gen::lit("l")], vec![])]),
            4 => ("z = <<E\nq\nE\n", vec![gen::attr("z", gen::st("q"))]),
            _ => ("v = 1", vec![gen::attr("v", gen::num("1"))]),
        };
        text.push_str(ft);
        exp.extend(fe);
        ch.note(|| text.clone());
        expect(&text, &exp, w)
    })
}

fn labels() -> Family {
    Family::new("labels", "every list of at most 4 labels of 8 kinds, adjacent or apart, on 4 forms of block", |ch, w| {
        let kinds: &[(&str, ML)] = &[
            ("x", gen::idl("x")),
            ("\"x\"", gen::lit("x")),
            ("\"\"", gen::lit("")),
            ("\"a b/\\\"\\u00e9\"", gen::lit("a b/\"\u{e9}")),
            ("_y-1", gen::idl("_y-1")),
            ("é", gen::idl("é")),
            ("\"{ # // /* = \"", gen::lit("{ # // /* = ")),
            ("null", gen::idl("null")),
        ];
        let n = ch.range(0, 4);
        let mut text = String::from("b");
        let mut ls = vec![];
        let sep = *ch.pick(&[" ", "", "\t/* c */ "]);
        let mut last_ident = true;
        for _ in 0..n {
            let (t, l) = ch.pick(kinds).clone();
            let ident = matches!(l, ML::Ident(_));
            text.push_str(if sep.is_empty() && ident && last_ident { " " } else { sep });
            text.push_str(t);
            ls.push(l);
            last_ident = ident;
        }
        let (t, body) = match ch.choose(4) {
            0 => (" {}\n", vec![]),
            1 => (" { a = 1 }", vec![gen::attr("a", gen::num("1"))]),
            2 => ("{\n}\n", vec![]),
            _ => (
                " {\n  a = 1\n  b x {\n  }\n}\n",
                vec![gen::attr("a", gen::num("1")), gen::blk("b", vec![gen::idl("x")], vec![])],
            ),
        };
        text.push_str(t);
        ch.note(|| text.clone());
        expect(&text, &vec![gen::blk("b", ls, body)], w)
    })
}

pub fn ramps(big: bool) -> Vec<Family> {
    let sizes = ramp::sizes(big);
    let large = ramp::large(big);
    let depths = ramp::depths();
    let (b1, b2) = (format!("{} kinds of growth at {} sizes up to {}", ramp::FLAT, sizes.len(), sizes[sizes.len() - 1]), format!("{} kinds of nesting at {} depths up to {}", ramp::DEEP, depths.len(), depths[depths.len() - 1]));
    vec![
        Family::new("growth", &b1, move |ch, w| {
            let n = *ch.pick(&sizes);
            let kind = ch.choose(ramp::FLAT);
            ch.note(|| format!("growth {} of size {}", kind, n));
            let (t, m) = ramp::flat(kind, n);
            expect(&t, &m, w)
        }),
        Family::new("large", &format!("{} kinds of growth at {} sizes up to {}", ramp::FLAT, large.len(), large[large.len() - 1]), move |ch, w| {
            let n = *ch.pick(&large);
            let kind = ch.choose(ramp::FLAT);
            // (blocks take the parser quadratic time: nom compares the rest of the input with itself)
            let n = if ramp::SLOW.contains(&kind) { n / 4 } else { n };
            ch.note(|| format!("growth {} of size {}", kind, n));
            let (t, m) = ramp::flat(kind, n);
            expect(&t, &m, w)
        })
        .limit(300),
        Family::new("nesting", &b2, move |ch, w| {
            let n = *ch.pick(&depths);
            let kind = ch.choose(ramp::DEEP);
            ch.note(|| format!("nesting {} of depth {}", kind, n));
            let (t, m) = ramp::deep(kind, n);
            expect(&t, &m, w)
        }),
    ]
}

pub fn layout(name: &str, dev: u32) -> Family {
    let seeds = gen::seeds();
    Family::new(name, &format!("{} documents in every layout with at most {} departures from the default one", seeds.len(), dev), move |ch, w| {
        let m = ch.pick(&seeds).clone();
        let one = ch.flag();
        let text = {
            let mut r = Render::new(Some(ch));
            r.body(&m, &mut |_| one);
            r.out
        };
        ch.note(|| text.clone());
        expect(&text, &m, w)
    })
    .dev(dev)
}

pub const C02: Prop = Prop {
    id: "C02",
    rule: "an execution chooses a document (its elements, values, labels and layout), writes it as text, parses the text and compares the result with the document chosen; non-trivial: the document has an element",
    assumptions: &["the writer of the text (harness/src/render.rs, gen.rs, ramp.rs) is right about what the text stands for"],
    families: |t| {
        let mut v = vec![shapes(if t { 6 } else { 5 }, 3), placed_values(), labels(), layout("layout", 1)];
        v.extend(ramps(t));
        v
    },
};

// ---------------------------------------------------------------- layout transparency

fn same_legacy(text: &str, base: &str, w: bool) -> Verdict {
    let got = guard(|| fc::value::from_str(text, None).map(|b| model::map(&b)).map_err(|e| e.to_string()))?;
    let exp = guard(|| fc::value::from_str(base, None).map(|b| model::map(&b)).map_err(|e| e.to_string()))?;
    if exp.is_err() {
        return Err(format!("the document {:?} is not accepted: {:?}", base, exp));
    }
    if got != exp {
        return Err(format!("input {:?}\n  got      {:?}\n  expected {:?}, as for {:?}", text, got, exp, base));
    }
    Ok(Obs {
        class: model::hash(&text),
        nontrivial: text != base,
        sample: if w { Some(clip(&format!("{:?}", text))) } else { None },
    })
}

/// A document of the older dialect as pieces; gaps of three kinds between them.
fn legacy_layout(dev: u32) -> Family {
    // i: inline gap, m: gap where newlines are blank, n: end of line
    let docs: Vec<Vec<&str>> = vec![
        vec!["m", "i", "a", "i", "=", "i", "1", "i", "n", "m", "i", "\"k k\"", "i", "=", "i", "\"v\"", "i", "n", "m"],
        vec!["m", "i", "a", "i", "{", "m", "i", "b", "i", "=", "i", "true", "i", "n", "m", "}", "i", "n", "m"],
        vec!["m", "i", "r", "i", "\"x\"", "i", "\"y\"", "i", "{", "m", "i", "b", "i", "=", "i", "null", "i", "n", "m", "i", "c", "i", "{", "m", "}", "i", "n", "m", "}", "i", "n", "m"],
        vec!["m", "i", "l", "i", "=", "i", "[", "m", "1", "m", ",", "m", "\"s\"", "m", ",", "m", "[", "m", "]", "m", ",", "m", "]", "i", "n", "m"],
        vec!["m", "i", "o", "i", "=", "i", "{", "m", "i", "p", "i", "=", "i", "-1.5", "i", ",", "m", "i", "q", "i", "=", "i", "2", "i", "n", "m", "}", "i", "n", "m"],
    ];
    Family::new("older front-end", &format!("{} documents in every layout with at most {} departures from the default one", docs.len(), dev), move |ch, w| {
        let d = ch.pick(&docs).clone();
        let mut base = String::new();
        let mut text = String::new();
        for t in d {
            match t {
                "i" => {
                    base.push(' ');
                    text.push_str(ch.pick_dev(&[" ", "", "\t", "/* c */", " /* a\nb */ ", "/***/", "/* # \" { */"]));
                }
                "m" => {
                    base.push(' ');
                    text.push_str(ch.pick_dev(&[" ", "", "\n", "\r\n", "# c\n", "// \" {\r\n", "/* c\n */", "\n\t# d\n\n", "//\n"]));
                }
                "n" => {
                    base.push('\n');
                    text.push_str(ch.pick_dev(&["\n", "\r\n", "# c\n", "// c\r\n", ",", ",\n", ", # c\n", "\n\n", "\n// c\n"]));
                }
                t => {
                    base.push_str(t);
                    text.push_str(t);
                }
            }
        }
        ch.note(|| text.clone());
        same_legacy(&text, &base, w)
    })
    .dev(dev)
}

fn long_layout() -> Family {
    let sizes = ramp::sizes(true);
    Family::new("long gaps", &format!("9 kinds of gap at {} sizes in 4 places", sizes.len()), move |ch, w| {
        let n = *ch.pick(&sizes);
        let kind = ch.choose(9);
        let place = ch.choose(4);
        let fill: String = (0..n).map(|i| ["c", " ", "#", "{", "\"", "é", "/", "="][i % 8]).collect();
        let inline = match kind {
            0 => " ".repeat(n),
            1 => "\t".repeat(n),
            2 => format!("/*{}*/", fill),
            3 => "/**/".repeat(n),
            _ => String::new(),
        };
        let line = match kind {
            4 => "\n".repeat(n + 1),
            5 => "\r\n".repeat(n + 1),
            6 => format!("#{}\n", fill),
            7 => format!("//{}\r\n", fill),
            8 => "# c\n// d\n".repeat(n + 1),
            _ => format!("{}\n", inline),
        };
        let text = match place {
            0 => format!("{}a = 1\nb {{\n  c = 2\n}}\n", line),
            1 => format!("a = 1{}b {{{}  c = 2{}}}{}", line, line, line, line),
            2 => format!("a{i}={i}1\nb{i}{{{i}\n{i}c{i}={i}2{i}\n{i}}}{i}\n", i = inline),
            _ => format!("a = 1\nb {{\n  c = 2\n}}{}", line),
        };
        ch.note(|| clip(&text));
        let m = vec![gen::attr("a", gen::num("1")), gen::blk("b", vec![], vec![gen::attr("c", gen::num("2"))])];
        expect(&text, &m, w)
    })
}

fn crlf() -> Family {
    let mut docs: Vec<(String, MBody)> = gen::seeds().iter().map(|m| (plain(m), m.clone())).collect();
    for k in 0..ramp::FLAT {
        for n in [0, 1, 2, 5] {
            // heredoc text keeps its line breaks, so documents with heredocs are left out
            let (t, m) = ramp::flat(k, n);
            if !t.contains("<<") && !t.contains('\r') {
                docs.push((t, m));
            }
        }
    }
    for k in 0..ramp::DEEP {
        docs.push(ramp::deep(k, 3));
    }
    Family::new("newline style", &format!("{} documents with line ends LF, CRLF or alternating, and with and without the last one", docs.len()), move |ch, w| {
        let (t, m) = ch.pick(&docs).clone();
        let style = ch.choose(3);
        let cut = ch.flag();
        let mut i = 0;
        let mut out = String::new();
        for c in t.chars() {
            if c == '\n' {
                i += 1;
                if style == 1 || (style == 2 && i % 2 == 0) {
                    out.push('\r');
                }
            }
            out.push(c);
        }
        if cut && out.trim_end().ends_with(|c: char| c == '}' || c.is_alphanumeric() || c == '"' || c == ']') && !t.contains('#') {
            out = out.trim_end().to_string();
        }
        ch.note(|| out.clone());
        expect(&out, &m, w)
    })
}

/// A document with holes for comments: where lines may end, and within lines.
fn commented(k: usize, c: &str) -> Option<(String, MBody)> {
    let one = || gen::num("1");
    let ok = |inline: bool| if inline { !c.contains("*/") } else { !c.contains(&['\n', '\r'][..]) };
    Some(match k {
        0 if ok(true) => (format!("/*{}*/a/*{}*/=/*{}*/1/*{}*/\nb = 1\n", c, c, c, c), vec![gen::attr("a", one()), gen::attr("b", one())]),
        1 if ok(true) => (
            format!("b/*{}*/\"x\"/*{}*/y /*{}*/{{/*{}*/\na = 1/*{}*/\n/*{}*/}}/*{}*/\n", c, c, c, c, c, c, c),
            vec![gen::blk("b", vec![gen::lit("x"), gen::idl("y")], vec![gen::attr("a", one())])],
        ),
        2 if ok(true) => (format!("a = [1/*{}*/, /*{}*/ {{/*{}*/k/*{}*/= 1}}]\n", c, c, c, c), vec![gen::attr("a", ME::Tuple(vec![one(), gen::obj(vec![("k", one())])]))]),
        3 if ok(false) => (format!("#{}\na = 1 #{}\n//{}\r\nb = 1//{}\n", c, c, c, c), vec![gen::attr("a", one()), gen::attr("b", one())]),
        4 if ok(false) => (format!("b {{ #{}\n//{}\na = [ #{}\n1 //{}\n]\n}} #{}\n", c, c, c, c, c), vec![gen::blk("b", vec![], vec![gen::attr("a", ME::Tuple(vec![one()]))])]),
        _ => return None,
    })
}

fn comment_check(k: usize, c: &str, w: bool) -> Verdict {
    match commented(k, c) {
        Some((t, m)) => expect(&t, &m, w),
        None => obs(0, false),
    }
}

fn comment_words(n: usize) -> Family {
    const PIECES: &[&str] = &["*", "/", "#", "\"", "{", "}", "a = 2", " ", "\\", "\rx", "é", "\n", "<<E", "/*"];
    Family::new("comment texts", &format!("every text of at most {} of {} pieces as all the comments of 5 documents", n, PIECES.len()), move |ch, w| {
        let c = gen::word(ch, PIECES, n);
        let k = ch.choose(5);
        ch.note(|| c.clone());
        comment_check(k, &c, w)
    })
}

fn comment_scalars() -> Family {
    Family::new("comment scalars", "every Unicode scalar in 4 places of all the comments of 5 documents", move |ch, w| {
        let c = super::total::scalar(ch.choose(272) * 4096 + ch.choose(4096));
        let k = ch.choose(5);
        let t = match ch.choose(4) {
            0 => format!("{}", c),
            1 => format!("* {}x", c),
            2 => format!("*{}x", c),
            _ => format!(" {}{}/", c, c),
        };
        ch.note(|| t.clone());
        comment_check(k, &t, w)
    })
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "an execution writes a document with chosen blanks, comments and line ends in its gaps and compares what is parsed with the document in the default layout; non-trivial: the document has an element",
    assumptions: &["the gaps listed in harness/src/render.rs are those where the dialect allows blanks and comments"],
    families: |t| {
        vec![
            layout("one departure", 1),
            layout("two departures", 2),
            legacy_layout(if t { 3 } else { 2 }),
            long_layout(),
            crlf(),
            comment_words(if t { 6 } else { 5 }),
            comment_scalars(),
        ]
    },
};

// ---------------------------------------------------------------- composition

fn accepted(words: &[&str], max: usize) -> Vec<String> {
    // every accepted word that ends its last line
    let mut out = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for p in &level {
            for w in words {
                next.push(format!("{}{}", p, w));
            }
        }
        for t in &next {
            if refparse::config(t).is_some() && t.ends_with('\n') {
                out.push(t.clone());
            }
        }
        level = next;
    }
    out
}

fn corpus(thorough: bool) -> Vec<String> {
    let mut v = accepted(&["a", "=", "1", "\n", " ", "{", "}", "\"s\"", "#c\n", "<<E\nx\nE", "b", "//\r\n", "/*\n*/"], if thorough { 6 } else { 5 });
    for m in gen::seeds() {
        v.push(plain(&m));
    }
    for (t, _, eol) in gen::values() {
        v.push(format!("v = {}\n", t));
        if !eol {
            v.push(format!("v {{ v = {} }} # c\n", t));
        }
    }
    for k in 0..ramp::FLAT {
        v.push(ramp::flat(k, 2).0);
        v.push(ramp::flat(k, 5).0);
    }
    for k in 0..ramp::DEEP {
        v.push(ramp::deep(k, 2).0);
    }
    let mut v: Vec<String> = v.into_iter().filter(|t| t.is_empty() || t.ends_with('\n')).collect();
    v.sort();
    v.dedup();
    v
}

fn parsed(t: &str) -> Result<MBody, String> {
    guard(|| fc::parse_str(t).map(|b| model::body(&b)).map_err(|e| e.to_string()))?.map_err(|e| format!("{:?} is rejected: {}", clip(t), clip(&e)))
}

fn concat(thorough: bool) -> Family {
    let c = corpus(thorough);
    let p: Vec<Option<MBody>> = c.iter().map(|t| parsed(t).ok()).collect();
    Family::new("concatenation", &format!("every pair of {} documents", c.len()), move |ch, w| {
        let (i, j) = (ch.choose(c.len()), ch.choose(c.len()));
        let t = format!("{}{}", c[i], c[j]);
        ch.note(|| t.clone());
        let mut exp = p[i].clone().ok_or_else(|| format!("{:?} is rejected", c[i]))?;
        exp.extend(p[j].clone().ok_or_else(|| format!("{:?} is rejected", c[j]))?);
        expect(&t, &exp, w)
    })
}

fn nesting(thorough: bool) -> Family {
    let c = corpus(thorough);
    Family::new("wrapping", &format!("each of {} documents as the body of a block in 8 forms, twice over, between elements", c.len()), move |ch, w| {
        let t = ch.pick(&c).clone();
        let mut exp = parsed(&t)?;
        let mut text = t;
        let levels = ch.range(1, 2);
        for _ in 0..levels {
            let (head, ty, labels, tail): (&str, &str, Vec<ML>, &str) = match ch.choose(8) {
                0 => ("b {\n", "b", vec![], "}\n"),
                1 => ("b{\n", "b", vec![], "}\r\n"),
                2 => ("b \"l\" {\n", "b", vec![gen::lit("l")], "} # c\n"),
                3 => ("b x y {\n", "b", vec![gen::idl("x"), gen::idl("y")], "}\n\n"),
                4 => ("b { # c\n", "b", vec![], " }\n"),
                5 => ("b {\r\n\n", "b", vec![], "\n}\n"),
                6 => ("b \"\" x \"l\" \"l\" { // {\n", "b", vec![gen::lit(""), gen::idl("x"), gen::lit("l"), gen::lit("l")], "/* } */ } \n"),
                _ => ("b-1 {\n# }\n", "b-1", vec![], "# }\n}\n"),
            };
            text = format!("{}{}{}", head, text, tail);
            exp = vec![gen::blk(ty, labels, exp)];
        }
        match ch.choose(4) {
            0 => {}
            1 => {
                text = format!("y = 1\n{}", text);
                exp.insert(0, gen::attr("y", gen::num("1")));
            }
            2 => {
                text = format!("{}z = 1\n", text);
                exp.push(gen::attr("z", gen::num("1")));
            }
            _ => {
                text = format!("{}{}", text, text);
                exp.extend(exp.clone());
            }
        }
        ch.note(|| text.clone());
        expect(&text, &exp, w)
    })
}

fn many(thorough: bool) -> Family {
    let mut c: Vec<String> = gen::seeds().iter().map(|m| plain(m)).collect();
    for (t, _, _) in gen::values() {
        c.push(format!("v = {}\n", t));
    }
    for k in 0..ramp::FLAT {
        c.push(ramp::flat(k, 2).0);
    }
    c.retain(|t| t.ends_with('\n'));
    let max = if thorough { 300 } else { 120 };
    Family::new("repetition", &format!("each of {} documents repeated every number of times up to {}", c.len(), max), move |ch, w| {
        let t = ch.pick(&c).clone();
        let n = ch.range(0, max);
        let one = parsed(&t)?;
        let mut exp = vec![];
        for _ in 0..n {
            exp.extend(one.clone());
        }
        ch.note(|| format!("{} times {:?}", n, t));
        expect(&t.repeat(n), &exp, w)
    })
}

fn exprs_compose() -> Family {
    let vals: Vec<(String, ME)> = gen::values().into_iter().map(|(t, e, eol)| (if eol { format!("{}\n", t) } else { t }, e)).collect();
    Family::new("expressions", &format!("every pair of {} values in 6 collections", vals.len()), move |ch, w| {
        let (t1, e1) = ch.pick(&vals).clone();
        let (t2, e2) = ch.pick(&vals).clone();
        let (t, e) = match ch.choose(6) {
            0 => (format!("[{},{}]", t1, t2), ME::Tuple(vec![e1, e2])),
            1 => (format!("[ {} , {} , ]", t1, t2), ME::Tuple(vec![e1, e2])),
            2 => (format!("{{a={},b={}}}", t1.trim_end(), t2.trim_end()), gen::obj(vec![("a", e1), ("b", e2)])),
            3 => (format!("{{\n a = {}\n b = [{}]\n}}", t1.trim_end(), t2), gen::obj(vec![("a", e1), ("b", ME::Tuple(vec![e2]))])),
            4 => (format!("[({}), [{}]]", t1, t2), ME::Tuple(vec![e1, ME::Tuple(vec![e2])])),
            _ => (format!("({{ k = [{}, {}] }})", t1, t2), gen::obj(vec![("k", ME::Tuple(vec![e1, e2]))])),
        };
        // inside braces a heredoc has to be followed by its end of line, not by a comma
        let t = if t.contains("<<") && t.starts_with("{a=") {
            format!("{{a={}\n b={}\n}}", t1.trim_end(), t2.trim_end())
        } else {
            t
        };
        ch.note(|| t.clone());
        let got = guard(|| fc::parser::Expression::parse(&t).map(|x| model::expr(&x)).map_err(|e| e.to_string()))?;
        if got != Ok(e.clone()) {
            return Err(format!("expression {:?}\n  got      {:?}\n  expected {:?}", t, got, e));
        }
        Ok(Obs { class: model::hash(&e), nontrivial: true, sample: if w { Some(t) } else { None } })
    })
}

/// Documents that grow, joined with themselves and with others, and wrapped.
fn grown(thorough: bool) -> Family {
    let sizes: Vec<usize> = ramp::sizes(thorough).into_iter().filter(|n| *n <= 4097).collect();
    let others: Vec<String> = gen::seeds().iter().map(|m| plain(m)).filter(|t| t.ends_with('\n')).take(3).chain((0..ramp::FLAT).map(|k| ramp::flat(k, 3).0)).filter(|t| t.ends_with('\n')).collect();
    Family::new("growth", &format!("{} kinds of growth at {} sizes, joined with themselves, before and after {} others, and as the body of a block", ramp::FLAT, sizes.len(), others.len()), move |ch, w| {
        let n = *ch.pick(&sizes);
        let k = ch.choose(ramp::FLAT);
        let how = ch.choose(3 + 2 * others.len());
        // of the others only a few at the sizes that take long
        if how >= 7 && (n > 300 || ramp::SLOW.contains(&k) && n > 70) {
            return Ok(Obs { class: 0, nontrivial: false, sample: None });
        }
        let (t, b) = ramp::flat(k, n);
        if !t.is_empty() && !t.ends_with('\n') {
            return Ok(Obs { class: 0, nontrivial: false, sample: None });
        }
        let (text, exp) = match how {
            0 => (format!("{}{}", t, t), [b.clone(), b].concat()),
            1 => (format!("x y \"z\" {{\n{}}}\n", t), vec![gen::blk("x", vec![gen::idl("y"), gen::lit("z")], b)]),
            2 => (format!("{}{}{}", t, t, t), [b.clone(), b.clone(), b].concat()),
            h => {
                let o = &others[(h - 3) / 2];
                let p = parsed(o)?;
                if h % 2 == 0 {
                    (format!("{}{}", o, t), [p, b].concat())
                } else {
                    (format!("{}{}", t, o), [b, p].concat())
                }
            }
        };
        ch.note(|| format!("kind {} of size {}, way {}", k, n, how));
        expect(&text, &exp, w)
    })
}

pub const C11: Prop = Prop {
    id: "C11",
    rule: "an execution joins, repeats or wraps accepted documents and compares what is parsed with what their parts parse to; non-trivial: the result has an element",
    assumptions: &["the parts are enumerated as short words over the tokens of the dialect, plus a fixed list"],
    families: |t| vec![concat(t), nesting(t), many(t), exprs_compose(), grown(t)],
};
