//! C01: parsing ends. C29: and depends on the text alone. C25's texts are in serde.rs.
use super::accept::{texts, INSERTS};
use crate::explore::*;
use crate::model::clip;
use crate::{gen, model, ramp, render, Prop};
use ferrous_chloride as fc;

/// All ways to parse a text; none may panic. The result says which accept.
pub fn all_entries(s: &str) -> Result<u64, String> {
    let mut r = 0;
    let step = |n: u64, f: &mut dyn FnMut() -> bool| -> Result<u64, String> {
        match guard(|| f()) {
            Ok(b) => Ok(if b { 1 << n } else { 0 }),
            Err(e) => Err(format!("{} of {}: {}", ["parse_str", "Expression::parse", "value::from_str", "value::from_str with merging"][n as usize], clip(&format!("{:?}", s)), e)),
        }
    };
    r |= step(0, &mut || fc::parse_str(s).is_ok())?;
    r |= step(1, &mut || fc::parser::Expression::parse(s).is_ok())?;
    r |= step(2, &mut || fc::value::from_str(s, None).is_ok())?;
    r |= step(3, &mut || fc::value::from_str(s, Some(fc::MergeBehaviour::Error)).is_ok())?;
    Ok(r)
}

fn check(s: &str, w: bool) -> Verdict {
    let r = all_entries(s)?;
    Ok(Obs {
        class: r | (s.len() as u64) << 8,
        nontrivial: r != 0,
        sample: if w { Some(format!("{} -> {:04b}", clip(&format!("{:?}", s)), r)) } else { None },
    })
}

const STRINGS: &[&str] = &["\"", "\\", "x", "u", "U", "0", "8", "F", "é", "\n", "\r", "😀", "a = \""];
const HEREDOCS: &[&str] = &["<<E\n", "<<-E\n", "\n", "E", " ", "é", "\t", "\r", "x", "-", "<<É\r\n", "É", "a = ", "[", ","];
const STRUCTURE: &[&str] = &["a", "=", "{", "}", "[", "]", "(", ")", "\n", ",", "\"", "/*", "*/", "#", "<<E\n", "1"];

const OPEN: &[&str] = &[
    "{", "[", "(", "a {", "a {\n", "a = {", "a = [", "a = (", "{ a =", "{ a = {", "[{", "[{a=", "[(", "({", "{(", "{ \"k\" = ", "{ (a) = ", "a b {\n", "a \"b\" {\n", "a \"b\" {", "a = { b {", "{\n",
    "[\n", "[1,", "{a=1,", "a = [[", "/*", "\"", "<<E\n", "a = <<E\n", "{ {", "{ [", "{[1]=", "a {a=", "\"a\" = {", "\"a\" = {\n", "a = {\n b = {\n", "#", "//", "-", "+.", "a", "a = \"\\", "1e",
    "((1", "[[1],", "a {} ", "a = 1 ",
];

fn deep() -> Family {
    Family::new(
        "nesting",
        &format!("{} openers nested 1 to 40 and 50, 64, 100, 200 deep, with 5 middles, 9 kinds of closing and 4 tails", OPEN.len()),
        |ch, w| {
            let o = *ch.pick(OPEN);
            let mut ns: Vec<usize> = (1..=40).collect();
            ns.extend([50, 64, 100, 200]);
            let n = *ch.pick(&ns);
            let mid = *ch.pick(&["", "1", "a = 1\n", "é", "a = 1,"]);
            let close: String = match ch.choose(9) {
                0 => String::new(),
                1 => "}".repeat(n),
                2 => "}\n".repeat(n),
                3 => "]".repeat(n),
                4 => ")".repeat(n),
                5 => ",}".repeat(n),
                k => {
                    // the brackets that are open, in order
                    let mut stack = vec![];
                    for c in o.repeat(n).chars() {
                        match c {
                            '{' => stack.push(if k == 7 { "}\n" } else { "}" }),
                            '[' => stack.push("]"),
                            '(' => stack.push(")"),
                            _ => {}
                        }
                    }
                    stack.reverse();
                    if k == 8 {
                        stack.pop();
                    }
                    stack.concat()
                }
            };
            let tail = *ch.pick(&["", "\n", "x", "}"]);
            let s = format!("{}{}{}{}", o.repeat(n), mid, close, tail);
            ch.note(|| clip(&s));
            check(&s, w)
        },
    )
}

fn mixed_deep() -> Family {
    Family::new("mixed nesting", "every pair of openers in alternation, 12, 25 and 60 deep, closed and unclosed", |ch, w| {
        let a = *ch.pick(OPEN);
        let b = *ch.pick(OPEN);
        let n = *ch.pick(&[6usize, 12, 30]);
        let s = format!("{}{}", a, b).repeat(n);
        let mut stack = vec![];
        for c in s.chars() {
            match c {
                '{' => stack.push("}"),
                '[' => stack.push("]"),
                '(' => stack.push(")"),
                _ => {}
            }
        }
        stack.reverse();
        let s = match ch.choose(3) {
            0 => s,
            1 => format!("{}{}", s, stack.concat()),
            _ => format!("{}1{}\n", s, stack.join("\n")),
        };
        ch.note(|| clip(&s));
        check(&s, w)
    })
}

fn edited() -> Family {
    let t = texts();
    Family::new("edits", &format!("every prefix, suffix, insertion and replacement of {} pieces in {} documents", INSERTS.len(), t.len()), move |ch, w| {
        let t = ch.pick(&t);
        let idx: Vec<usize> = t.char_indices().map(|x| x.0).chain(std::iter::once(t.len())).collect();
        let i = ch.choose(idx.len());
        let at = idx[i];
        let s = match ch.choose(4) {
            0 => t[..at].to_string(),
            1 => t[at..].to_string(),
            2 => format!("{}{}{}", &t[..at], ch.pick(INSERTS), &t[at..]),
            _ => format!("{}{}{}", &t[..at], ch.pick(INSERTS), &t[*idx.get(i + 1).unwrap_or(&at)..]),
        };
        ch.note(|| s.clone());
        check(&s, w)
    })
}

pub fn scalars() -> usize {
    0x110000 - 0x800
}
pub fn scalar(i: usize) -> char {
    let c = if i < 0xd800 { i } else { i + 0x800 };
    std::char::from_u32(c as u32).unwrap_or('a')
}

fn every_scalar() -> Family {
    Family::new("scalars", "every Unicode scalar in 14 places", |ch, w| {
        let c = scalar(ch.choose(272) * 4096 + ch.choose(4096)).to_string();
        let k = ch.choose(14);
        let s = match k {
            0 => c,
            1 => format!("{} = 1", c),
            2 => format!("a{} = 1", c),
            3 => format!("a = {}", c),
            4 => format!("a = \"{}\"\n", c),
            5 => format!("a = \"\\{}\"\n", c),
            6 => format!("a = <<-E\n{}x\n {}\n  E\n", c, c),
            7 => format!("a = <<{}\n{}\n{}\n", c, c, c),
            8 => format!("# {}\na = 1\n", c),
            9 => format!("a \"{}\" {{ /*{}*/ }}\n", c, c),
            10 => format!("a = \"\\x{}\"\n", c),
            11 => format!("a = 1{}\n", c),
            12 => format!("a = {{ {} = 1 }}\n", c),
            _ => format!("a = \"\\u00{}\"\n", c),
        };
        ch.note(|| format!("{:?}", s));
        check(&s, w)
    })
}

fn big(thorough: bool) -> Family {
    let sizes: Vec<usize> = if thorough { vec![1500, 3000, 10000, 30000] } else { vec![1500, 3000, 10000] };
    Family::new("sizes", &format!("{} kinds of growth and 14 repeated pieces at sizes {:?}", ramp::FLAT, sizes), move |ch, w| {
        let n = *ch.pick(&sizes);
        let k = ch.choose(ramp::FLAT + 14);
        let s = if k < ramp::FLAT {
            ramp::flat(k, n).0
        } else {
            match k - ramp::FLAT {
                0 => format!("a = \"{}", "\\n".repeat(n)),
                1 => format!("a = <<E\n{}", "E \n".repeat(n)),
                2 => "a\n".repeat(n),
                3 => format!("a = [{}", "1 ".repeat(n)),
                4 => format!("a = 1{}\n", "/* c */".repeat(n)),
                5 => format!("/*{}", "* /".repeat(n)),
                6 => format!("a = {}", "1".repeat(n)),
                7 => format!("a = -.{}e", "5".repeat(n)),
                8 => format!("{}", "é".repeat(n)),
                9 => format!("a {}", "b ".repeat(n)),
                10 => format!("a = {{ {}", "b = 1,".repeat(n)),
                11 => format!("a = <<-E\n{}\n  E\n", " é\n".repeat(n)),
                12 => "#\n".repeat(n),
                _ => format!("a = 1e{}\n", "9".repeat(n)),
            }
        };
        ch.note(|| clip(&s));
        check(&s, w)
    })
    .limit(if thorough { 300 } else { 60 })
}

fn words(name: &str, alphabet: &'static [&'static str], n: usize) -> Family {
    Family::new(name, &format!("every sequence of at most {} of {:?}", n, alphabet), move |ch, w| {
        let s = gen::word(ch, alphabet, n);
        ch.note(|| format!("{:?}", s));
        check(&s, w)
    })
}

pub const C01: Prop = Prop {
    id: "C01",
    rule: "an execution makes a text and parses it by four entry points; a panic, the end of the process, or more than 30 s (60 s for large documents, thorough 300 s) violates the property; non-trivial: at least one entry point accepts the text",
    assumptions: &["an execution that takes less than 30 s does not count as hanging; a text that takes exponential time shows as more than that at 200 levels", "nesting above 200 levels is outside the property"],
    families: |t| {
        vec![
            deep(),
            mixed_deep(),
            words("strings", STRINGS, if t { 6 } else { 5 }),
            words("heredocs", HEREDOCS, if t { 6 } else { 5 }),
            words("structure", STRUCTURE, if t { 6 } else { 5 }),
            edited(),
            every_scalar(),
            big(t),
        ]
    },
};

// ---------------------------------------------------------------- purity

type Call = (usize, String);

fn call(c: &Call) -> u64 {
    use serde::de::IgnoredAny;
    let (k, s) = c;
    let text = match k {
        0 => format!("{:?}", fc::parse_str(s)),
        1 => format!("{:?}", fc::parser::Expression::parse(s)),
        2 => format!("{:?}", fc::value::from_str(s, None).map(|m| model::map(&m)).map_err(|e| e.to_string())),
        3 => format!("{:?}", fc::value::from_str(s, Some(fc::MergeBehaviour::Error)).map(|m| model::map(&m)).map_err(|e| e.to_string())),
        4 => format!("{:?}", fc::from_str::<IgnoredAny>(s).map_err(|e| e.to_string())),
        5 => format!("{:?}", fc::from_str::<std::collections::BTreeMap<String, i64>>(s).map_err(|e| e.to_string())),
        6 => format!("{:?}", fc::parse_reader(s.as_bytes())),
        _ => format!("{:?}", fc::parse_slice(s.as_bytes())),
    };
    hash_str(&text)
}

/// What a server of untouched processes runs.
pub fn fresh_call(k: usize, text: &str) -> u64 {
    match guard(|| call(&(k, text.to_string()))) {
        Ok(x) => x,
        Err(_) => std::process::exit(3),
    }
}

/// The result of a call in a process that has done nothing before.
fn fresh(c: &Call) -> Result<u64, String> {
    // (a process might be ended for reasons that are not its own)
    match (0..3).find_map(|_| crate::zygote::ask(c.0, &c.1)) {
        Some(x) => Ok(x),
        None => Err(format!("call {} on {:?} panics", c.0, model::clip(&c.1))),
    }
}

/// The same, asked once for each call.
fn fresh_once(c: &Call) -> Result<u64, String> {
    static SEEN: std::sync::Mutex<Option<std::collections::HashMap<Call, u64>>> = std::sync::Mutex::new(None);
    let seen = || SEEN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = seen().get_or_insert_with(Default::default).get(c) {
        return Ok(*x);
    }
    let x = fresh(c)?;
    seen().get_or_insert_with(Default::default).insert(c.clone(), x);
    Ok(x)
}

fn history(n: usize, size: usize) -> Family {
    let mut pool: Vec<Call> = vec![];
    for t in [
        "a = 1\n", "a = 1\nb {\n c = [1, \"x\"]\n}\n", "a = \"x", "a = \"\\q\"", "a = <<E\nx\nE\n", "a = <<-E\n  x\n", "b \"l\" m {\n}\n", "a = 1\na = 2\n", "a {\n}\na {\n}\n", "}", "",
        "a = {b = 1, b = 2}\n", "a = \"\\u0041\\ud800\"\n", "/*", "a = 99999999999999999999\n", "a = (((((1)))))\n",
    ] {
        for k in 0..8 {
            let t = if k == 1 { t.trim_start_matches("a = ").to_string() } else { t.to_string() };
            pool.push((k, t));
        }
    }
    pool.truncate(size);
    let first: Vec<std::sync::OnceLock<u64>> = pool.iter().map(|_| Default::default()).collect();
    Family::new(&format!("histories of {}", n), &format!("every sequence of {} of {} calls, the last result compared with that in a fresh process", n, pool.len()), move |ch, w| {
        let (mut last, mut class) = (0, 0);
        for _ in 0..n {
            last = ch.choose(pool.len());
            let c = &pool[last];
            ch.note(|| format!("{:?}", c));
            let want = match first[last].get() {
                Some(x) => *x,
                None => {
                    let x = fresh_once(c)?;
                    *first[last].get_or_init(|| x)
                }
            };
            class = want;
            let r = guard(|| call(c))?;
            if r != want {
                return Err(format!("call {:?} gives another result after other calls than in a fresh process", c));
            }
        }
        Ok(Obs { class, nontrivial: true, sample: if w { Some(format!("... {:?}", pool[last])) } else { None } })
    })
}

/// Many calls of one kind, then another.
fn long_history() -> Family {
    Family::new("long histories", "each of 8 calls on 10 texts after 0 to 300 calls of one of 20 kinds", |ch, w| {
        let texts = ["a = 1\n", "a = [", "a {\n b = \"x\"\n}\n", "a = \"\\x", "a = <<E\nq\nE\n", "x \"y\" {\n}\n", "a = 1\na = 1\n", "[{(", "\u{feff}", "a = 1.5e3\n"];
        let n = *ch.pick(&[0usize, 1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300]);
        let before = (ch.choose(4), ch.pick(&texts).to_string());
        let c = (ch.choose(8), ch.pick(&texts).to_string());
        ch.note(|| format!("{} times {:?}, then {:?}", n, before, c));
        let want = fresh_once(&c)?;
        for _ in 0..n {
            guard(|| call(&before))?;
        }
        let got = guard(|| call(&c))?;
        if got != want {
            return Err(format!("call {:?} gives another result after {} calls {:?} than in a fresh process", c, n, before));
        }
        Ok(Obs { class: got, nontrivial: true, sample: if w { Some(format!("{} {:?} {:?}", n, before, c)) } else { None } })
    })
}

/// Very many calls that leave something open, then calls that go deep.
fn worn(thorough: bool) -> Family {
    let counts: &'static [usize] = if thorough { &[1000, 20000] } else { &[3000] };
    let open: Vec<String> = ["[", "(", "{a=", "b {\n", "[{a=", "\"", "/*", "<<E\n", "a=[", "a=(", "a={b=", "[\"\\u{"].iter().map(|o| o.repeat(if o.ends_with('"') || o.ends_with('{') { 1 } else { 60 })).collect();
    let closed = vec![format!("a = {}{}\n", "[".repeat(60), "]".repeat(60)), "a=1\n".repeat(30), "b{\n".repeat(40) + &"}\n".repeat(40), "a \"b\" c {}\n".repeat(10)];
    let befores: Vec<String> = open.into_iter().chain(closed).collect();
    let afters = vec![
        format!("a = {}1{}\n", "[".repeat(150), "]".repeat(150)),
        format!("a = {}1{}\n", "(".repeat(150), ")".repeat(150)),
        format!("{}1{}", "[".repeat(150), "]".repeat(150)),
        "b {\n".repeat(100) + &"}\n".repeat(100),
        "a = \"x\\n\"\nb \"c\" d {\n e = <<E\nx\nE\n}\n".to_string(),
        "a = ".to_string() + &"[".repeat(150),
    ];
    Family::new("worn threads", &format!("after {:?} calls of each of 4 entry points on each of {} texts, most of which leave up to 60 constructs open, each of 8 calls on {} texts", counts, befores.len(), afters.len()), move |ch, w| {
        let n = *ch.pick(counts);
        let before = (ch.choose(4), ch.pick(&befores).clone());
        ch.note(|| format!("{} times {:?}", n, before));
        for _ in 0..n {
            guard(|| call(&before))?;
        }
        for t in &afters {
            for k in 0..8 {
                let c = (k, t.clone());
                let want = fresh_once(&c)?;
                if guard(|| call(&c))? != want {
                    return Err(format!("call {} on {:?} gives another result after {} calls {:?} than in a fresh process", k, model::clip(t), n, before));
                }
            }
        }
        Ok(Obs { class: hash_str(&format!("{:?}", before)), nontrivial: true, sample: if w { Some(format!("{} {:?}", n, before)) } else { None } })
    })
    .limit(120)
}

/// Characters that a table of a few bits, or a cut code point, takes for one another: after one
/// of them, the other gives what it gives on a fresh thread.
fn confusable(thorough: bool) -> Family {
    let top = if thorough { 0x10000u32 } else { 0x3000 };
    Family::new("characters", &format!("every character up to U+{:X}, and every 97th above, after each that differs from it in one bit of its code point or by one, in 6 places", top), move |ch, w| {
        let n = ch.choose((top + 0x10f800 / 97) as usize) as u32;
        let a = if n < top { n } else { top + (n - top) * 97 };
        let place = ch.choose(6);
        let k = *ch.pick(&[0, 3]);
        let a = match std::char::from_u32(a) {
            Some(a) => a,
            None => return obs(0, false),
        };
        let text = |c: char| match place {
            0 => format!("a{}b = 1\n", c),
            1 => format!("{} \"x\" {{}}\n", c),
            2 => format!("a = \"{}\"\n", c),
            3 => format!("a = <<E{}\nx\nE{}\n", c, c),
            4 => format!("a = {{ {} = 1 }}\n", c),
            _ => format!("a ={}1\n", c),
        };
        let c = (k, text(a));
        ch.note(|| format!("{:?} by call {}", c.1, k));
        let want = fresh(&c)?;
        for how in 0..23 {
            let b = match how {
                21 => (a as u32).wrapping_add(1),
                22 => (a as u32).wrapping_sub(1),
                h => a as u32 ^ (1 << h),
            };
            if let Some(b) = std::char::from_u32(b) {
                // (something else first, so that what is left of the call on `c` does not hide the one on `before`)
                guard(|| call(&(k, text(if a == '\u{4e00}' { '\u{3b1}' } else { '\u{4e00}' }))))?;
                let before = (k, text(b));
                guard(|| call(&before))?;
                if guard(|| call(&c))? != want {
                    return Err(format!("call {:?} gives another result after call {:?} than in a fresh process", c, before));
                }
            }
        }
        obs_with(want, true, w, || format!("{:?}", c))
    })
}

/// Texts of one length in one place in memory, one after the other.
fn same_buffer() -> Family {
    let mut texts: Vec<String> = vec![];
    for t in [
        "a=1", "a=2", "b=1", "a=\"1\"", "a=[1]", "a=[2]", "a=[1,2]", "a={b=1}", "a={b=2}", "a={c=1}", "a{}", "b{}", "a b{}", "a c{}", "a \"b\"{}", "a \"c\"{}", "a{b=1}", "a{b=2}", "a=1\nb=1", "a=1\nb=2", "a=1\na=1", "a{}\na{}", "a{}\nb{}", "#a\n#b", "/*a*/",
        "a=(1)", "a=((1))", "a=(", "a=[", "a={", "a{", "a=}", "a=\"x", "a=\"\\n\"", "a=\"\\q\"", "a=<<E\nE", "a=<<E\nx\nE", "a=<<E\ny\nE", "a=<<E\nx\nF", "a=1.5", "a=1e5", "a=1e6", "a=null", "a=true", "1", "2", "[1]", "(1)", "x", "a x",
    ] {
        // the difference at the start, or in the middle of more
        texts.push(format!("{:<22}\n", t).replace(" \n", "\n "));
        texts.push(format!("k=1\n{}{}\nz=9\n", t, "\n".repeat(16 - t.len())));
    }
    // expressions
    for e in ["1", "2", "-1", "1.5", "12", "13", "\"1\"", "\"2\"", "[1]", "[2]", "[a]", "[1,2]", "[1,3]", "{a=1}", "{a=2}", "{b=1}", "null", "true", "(1)", "((2))", "x", "\"x", "[", "\"\\n\"", "\"\\t\"", "\"\\q\"", "1 1", "[1]]", "<<E\nx\nE\n", "<<E\ny\nE\n"] {
        texts.push(e.to_string());
        // (as much before as needed, so that the end is the end)
        texts.push(format!("({:>14})", e));
        texts.push(format!("[{}{}]", "1,".repeat(14 - e.len()), e));
        texts.push(format!("\"{:z<14}\"", e.replace('"', "q").replace('\\', "b")));
    }
    let texts: Vec<Vec<u8>> = texts.into_iter().map(|t| t.into_bytes()).collect();
    let lens: std::collections::BTreeMap<usize, Vec<Vec<u8>>> = texts.into_iter().fold(Default::default(), |mut m: std::collections::BTreeMap<usize, Vec<Vec<u8>>>, t| {
        m.entry(t.len()).or_default().push(t);
        m
    });
    let pools: Vec<Vec<Vec<u8>>> = lens.into_iter().map(|x| x.1).collect();
    let count: usize = pools.iter().map(|p| p.len() * p.len()).sum();
    Family::new("one buffer", &format!("{} pairs of texts of one length, the second written over the first in the same buffer, by 8 calls", count), move |ch, w| {
        let p = ch.pick(&pools);
        let (x, y) = (ch.pick(p).clone(), ch.pick(p).clone());
        let (k, l) = (ch.choose(8), ch.choose(8));
        ch.note(|| format!("call {} on {:?} after call {} on {:?}", l, String::from_utf8_lossy(&y), k, String::from_utf8_lossy(&x)));
        let mut c: Call = (k, String::from_utf8(x).expect("engine: text"));
        guard(|| call(&c))?;
        let at = c.1.as_ptr();
        c.0 = l;
        c.1.clear();
        c.1.push_str(std::str::from_utf8(&y).expect("engine: text"));
        if c.1.as_ptr() != at {
            return Err("engine: the buffer moved".to_string());
        }
        let got = guard(|| call(&c))?;
        let want = fresh_once(&(l, String::from_utf8(y).expect("engine: text")))?;
        if got != want {
            return Err(format!("call {} on {:?} gives another result when another text was at its place before", l, c.1));
        }
        obs_with(got, true, w, || format!("{:?}", c))
    })
}

/// The same with long texts that differ in one place.
fn same_long_buffer(thorough: bool) -> Family {
    let sizes: Vec<usize> = if thorough { vec![64, 65, 128, 255, 256, 257, 300, 1024, 4096, 5000, 65536, 70000] } else { vec![64, 256, 300, 1024, 5000, 70000] };
    const FORMS: usize = 10;
    fn form(k: usize, n: usize, c: char) -> String {
        let z = "z".repeat(n);
        match k {
            0 => format!("a = \"{}{}\"\n", c, z),
            1 => format!("a = \"{}{}\"\n", z, c),
            2 => format!("a = \"{}{}{}\"\n", &z[n / 2..], c, &z[n / 2..]),
            3 => format!("{}{} = 1\n", z, c),
            4 => format!("b \"{}{}\" {{}}\n", z, c),
            5 => format!("{}a = \"{}\"\n", "\n".repeat(n), c),
            6 => format!("a = \"{}\"{}", c, "\n".repeat(n)),
            7 => format!("\"{}{}\"", z, c),
            8 => format!("[{}\"{}\"]", "1,".repeat(n / 2), c),
            _ => format!("[\"{}\"{}]", c, ",1".repeat(n / 2)),
        }
    }
    Family::new("one long buffer", &format!("pairs of texts of {} forms and {} sizes that differ in one character, the second written over the first in the same buffer, by 8 calls", FORMS, sizes.len()), move |ch, w| {
        let (n, f) = (*ch.pick(&sizes), ch.choose(FORMS));
        let (k, l) = (ch.choose(8), ch.choose(8));
        ch.note(|| format!("call {} on form {} of size {} after call {}", l, f, n, k));
        let mut c: Call = (k, form(f, n, 'p'));
        guard(|| call(&c))?;
        let y = form(f, n, 'q');
        let at = c.1.as_ptr();
        c.0 = l;
        c.1.clear();
        c.1.push_str(&y);
        if c.1.as_ptr() != at {
            return Err("engine: the buffer moved".to_string());
        }
        let got = guard(|| call(&c))?;
        if got != fresh_once(&(l, y))? {
            return Err(format!("call {} on {:?} gives another result when another text was at its place before", l, model::clip(&c.1)));
        }
        obs_with(got, true, w, || format!("{} {} {} {}", f, n, k, l))
    })
}

/// Texts with names, strings, labels or numbers that are written alike, one after the other.
fn alike_histories(thorough: bool, numbers: bool) -> Family {
    let max = if thorough { if numbers { 1100 } else { 70000 } } else if numbers { 70 } else { 600 };
    let bound = format!("{}, one after the other, in each of {} places, by 2 or 3 calls", if numbers { "two long numbers that are written alike".to_string() } else { gen::alike_bound(max) }, if numbers { 3 } else { 7 });
    Family::new(if numbers { "alike numbers" } else { "alike" }, &bound, move |ch, w| {
        let k = *ch.pick(if numbers { &[0usize, 5][..] } else { &[0usize, 3, 4][..] });
        let place = ch.choose(if numbers { 3 } else { 7 });
        let names = !numbers && matches!(place, 0 | 1 | 2 | 6);
        let (x, y) = if numbers { gen::alike_numbers(ch, max) } else { gen::alike(ch, names, max) };
        let text = |x: &str| match (numbers, place) {
            (true, 0) => format!("a = {}\n", x),
            (true, 1) => format!("a = -{}\n", x),
            (true, _) => format!("a = [{}, {}]\n", x, x),
            (_, 0) => format!("{} = 1\n", x),
            (_, 1) => format!("{} {{}}\n", x),
            (_, 2) => format!("b {} {{}}\n", x),
            (_, 3) => format!("b {} {{}}\n", render::quote(x)),
            (_, 4) => format!("a = {}\n", render::quote(x)),
            (_, 5) => format!("a = <<E\n{}\nE\n", x),
            (_, _) => format!("a = {{ {} = 1 }}\n", x),
        };
        let (before, c) = ((k, text(&x)), (k, text(&y)));
        ch.note(|| format!("call {} on {:?} after {:?}", k, model::clip(&c.1), model::clip(&before.1)));
        guard(|| call(&before))?;
        let got = guard(|| call(&c))?;
        if got != fresh(&c)? {
            return Err(format!("call {} on {:?} gives another result after {:?} than in a fresh process", k, model::clip(&c.1), model::clip(&before.1)));
        }
        obs_with(got, true, w, || format!("{:?}", c))
    })
}

pub const C29: Prop = Prop {
    id: "C29",
    rule: "an execution makes a sequence of calls on one thread, while the other threads of the explorer make theirs, and compares each result (in full, by its printed form) with that of the same call in a fresh process; every execution is non-trivial",
    assumptions: &["the library starts no threads and synchronises nothing, so that schedules within a call need no exploration"],
    families: |t| {
        let mut v = vec![history(2, 128), long_history(), worn(t), confusable(t), same_buffer(), same_long_buffer(t), alike_histories(t, false), alike_histories(t, true)];
        v.push(history(3, 128));
        if t {
            v.push(history(4, 64));
        }
        v
    },
};
