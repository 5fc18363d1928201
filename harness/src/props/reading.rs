//! C12 strings, slices and readers, C13 owned copies.
use super::accept;
use crate::explore::*;
use crate::model::*;
use crate::{gen, model, ramp, Prop};
use fc::parser::number::Number;
use fc::parser::Expression;
use fc::AsOwned;
use ferrous_chloride as fc;
use std::io::{self, Read};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Got {
    New(MBody),
    Old(MM),
    /// An I/O error and its text.
    Io(String),
    /// Not UTF-8: where, and how long the bad part is.
    Utf8(usize, Option<usize>),
    /// Another error, by its kind.
    Err(String),
}

pub fn kind_of(e: &fc::Error) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect()
}

fn err(e: fc::Error) -> Got {
    match &e {
        fc::Error::IOError(e) if e.kind() == io::ErrorKind::InvalidData && e.get_ref().is_none() => Got::Io("InvalidData".into()),
        fc::Error::IOError(e) => Got::Io(format!("{:?} {}", e.kind(), e)),
        fc::Error::InvalidUnicodeToParse(u) => Got::Utf8(u.valid_up_to(), u.error_len()),
        e => Got::Err(kind_of(e)),
    }
}

pub const ENTRIES: usize = 3;

fn merge(entry: usize) -> Option<fc::MergeBehaviour> {
    if entry == 2 { Some(fc::MergeBehaviour::Error) } else { None }
}

fn by_str(entry: usize, s: &str) -> Result<Got, String> {
    guard(|| match entry {
        0 => fc::parse_str(s).map(|b| Got::New(model::body(&b))).unwrap_or_else(err),
        _ => fc::value::from_str(s, merge(entry)).map(|m| Got::Old(model::map(&m))).unwrap_or_else(err),
    })
}

fn by_slice(entry: usize, s: &[u8]) -> Result<Got, String> {
    guard(|| match entry {
        0 => fc::parse_slice(s).map(|b| Got::New(model::body(&b))).unwrap_or_else(err),
        _ => fc::value::from_slice(s, merge(entry)).map(|m| Got::Old(model::map(&m))).unwrap_or_else(err),
    })
}

fn by_reader<R: Read>(entry: usize, r: R) -> Result<Got, String> {
    guard(|| match entry {
        0 => fc::parse_reader(r).map(|b| Got::New(model::body(&b))).unwrap_or_else(err),
        _ => fc::value::from_reader(r, merge(entry)).map(|m| Got::Old(model::map(&m))).unwrap_or_else(err),
    })
}

/// What the whole of the bytes has to give.
fn expected(entry: usize, data: &[u8], reader: bool) -> Result<Got, String> {
    match std::str::from_utf8(data) {
        Ok(s) => by_str(entry, s),
        Err(_) if reader => Ok(Got::Io("InvalidData".into())),
        Err(u) => Ok(Got::Utf8(u.valid_up_to(), u.error_len())),
    }
}

/// A reader whose every answer is the explorer's.
struct Scripted<'a> {
    data: &'a [u8],
    pos: usize,
    ch: &'a mut Chooser,
    interrupts: usize,
    fault: Option<String>,
    faults: bool,
    log: String,
}

impl<'a> Read for Scripted<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = (self.data.len() - self.pos).min(buf.len());
        let sizes = left.min(4).max(1);
        let extra = if self.interrupts > 0 { 1 } else { 0 } + if self.faults { 2 } else { 0 };
        let c = self.ch.choose(sizes + extra);
        if c < sizes {
            let n = if c == 0 { left } else { c };
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            self.log.push_str(&format!("{} ", n));
            return Ok(n);
        }
        let mut k = c - sizes;
        if self.interrupts > 0 {
            if k == 0 {
                self.interrupts -= 1;
                self.log.push_str("! ");
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            k -= 1;
        }
        let kind = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof][k];
        let e = io::Error::new(kind, format!("fault at {}", self.pos));
        self.fault = Some(format!("{:?} {}", kind, e));
        self.log.push_str("fault ");
        Err(e)
    }
}

/// A reader that follows a plan.
struct Planned<'a> {
    data: &'a [u8],
    pos: usize,
    /// Where reads stop.
    cuts: Vec<usize>,
    chunk: usize,
    interrupt_at_cuts: bool,
    fail_at: Option<(usize, io::ErrorKind)>,
    pending: bool,
}

impl<'a> Read for Planned<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                return Err(io::Error::new(kind, "planned fault"));
            }
        }
        if self.pending {
            self.pending = false;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = (self.data.len() - self.pos).min(buf.len()).min(self.chunk);
        if let Some(c) = self.cuts.iter().find(|c| **c > self.pos) {
            if self.pos + n >= *c {
                n = c - self.pos;
                self.pending = self.interrupt_at_cuts;
            }
        }
        if let Some((at, _)) = self.fail_at {
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn plan(data: &[u8]) -> Planned<'_> {
    Planned { data, pos: 0, cuts: vec![], chunk: usize::MAX, interrupt_at_cuts: false, fail_at: None, pending: false }
}

fn compare(entry: usize, data: &[u8], how: &str, got: Got, exp: Got, w: bool) -> Verdict {
    if got != exp {
        let s = clip(&format!("{:?}", String::from_utf8_lossy(data)));
        return Err(format!("{} by {} through entry {}\n  got      {}\n  expected {}", s, how, entry, clip(&format!("{:?}", got)), clip(&format!("{:?}", exp))));
    }
    let nontrivial = match &got {
        Got::New(b) => !b.is_empty(),
        Got::Old(m) => !m.entries.is_empty(),
        Got::Io(_) | Got::Utf8(..) => true,
        Got::Err(_) => false,
    };
    Ok(Obs { class: model::hash(&(entry, &got, how.len())), nontrivial, sample: if w { Some(clip(&format!("{:?} by {} -> {:?}", String::from_utf8_lossy(data), how, got))) } else { None } })
}

const SHORT: &[&[u8]] = &[
    b"a=1\n", "é=\"é\"".as_bytes(), b"a=[1,2]\n", b"b{\n}\n", b"a=<<E\nx\nE\n", "a=\"😀\"\n".as_bytes(), "a=1#é\n".as_bytes(), b"", b"a=", b"a=1\r\nb=2", b"a=\"\xff\"\n", b"a=\"\xc3", b"a=1\na=2\n",
    b"\xef\xbb\xbfa=1",
];

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::BrokenPipe, io::ErrorKind::ConnectionReset, io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidInput, io::ErrorKind::WriteZero, io::ErrorKind::NotFound,
];

fn documents() -> Vec<String> {
    let mut v = accept::texts();
    for s in ["a = 1\na = 2\n", "a {\n b = 1\n}\na {\n b = 2\n}\n", "a = \n", "}", "é {\n ö = \"老虎 😀\"\n}\n", "r \"x\" {\n}\nr \"x\" {\n}\n"] {
        v.push(s.into());
    }
    v
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "an execution chooses a text (or bytes), an entry point and every answer of the reader (how many bytes, an interruption, a failure, the end), and compares the result with that of the text as a string, or with the failure injected; non-trivial: a document that is not empty, or an injected failure",
    assumptions: &["UTF-8 validation of the Rust standard library"],
    families: |t| {
        let docs = documents();
        let docs2 = documents();
        let docs3 = documents();
        let docs4 = documents();
        let sizes = ramp::sizes(false);
        let big: Vec<usize> = (10..if t { 25 } else { 23 }).flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
        vec![
            Family::new("schedules", &format!("every schedule of reads of 1, 2, 3 or all bytes, up to 2 (thorough: 3) interruptions and a failure of 2 kinds at every point, for {} documents of up to 10 bytes", SHORT.len()), move |ch, w| {
                let data = *ch.pick(SHORT);
                let entry = ch.choose(ENTRIES);
                let mut r = Scripted { data, pos: 0, ch, interrupts: if t { 3 } else { 2 }, fault: None, faults: true, log: String::new() };
                let got = by_reader(entry, &mut r)?;
                let (fault, log, pos) = (r.fault, r.log, r.pos);
                let exp = match fault {
                    Some(f) => Got::Io(f),
                    None if pos < data.len() => return Err(format!("{:?}: reading stopped at {} ({})", data, pos, log)),
                    None => expected(entry, data, true)?,
                };
                compare(entry, data, &format!("reads of {}", log), got, exp, w)
            }),
            Family::new("chunks", &format!("{} documents read in chunks of every size from 1 to 70, with and without interruptions", docs.len()), move |ch, w| {
                let d = ch.pick(&docs).as_bytes();
                let entry = ch.choose(ENTRIES);
                let k = ch.range(1, 70);
                let mut r = plan(d);
                r.chunk = k;
                r.interrupt_at_cuts = ch.flag();
                r.cuts = (0..d.len()).filter(|i| i % 3 == 1).collect();
                if !r.interrupt_at_cuts {
                    r.cuts.clear();
                }
                let got = by_reader(entry, &mut r)?;
                compare(entry, d, &format!("chunks of {}", k), got, expected(entry, d, true)?, w)
            }),
            Family::new("cuts", &format!("{} documents cut at every pair of positions up to 200", docs2.len()), move |ch, w| {
                let d = ch.pick(&docs2).as_bytes();
                let entry = ch.choose(ENTRIES);
                let i = ch.choose(d.len().min(200) + 1);
                let j = if t || d.len() < 150 { i + ch.choose(d.len().min(200) + 1 - i) } else { i };
                let mut r = plan(d);
                r.cuts = vec![i, j];
                r.interrupt_at_cuts = (i + j) % 2 == 0;
                let got = by_reader(entry, &mut r)?;
                compare(entry, d, &format!("cuts at {} and {}", i, j), got, expected(entry, d, true)?, w)
            }),
            Family::new("faults", &format!("{} documents with a failure of {} kinds at every position", docs3.len(), KINDS.len()), move |ch, w| {
                let d = ch.pick(&docs3).as_bytes();
                let entry = ch.choose(ENTRIES);
                let at = ch.choose(d.len() + 1);
                let kind = *ch.pick(KINDS);
                let mut r = plan(d);
                r.fail_at = Some((at, kind));
                r.chunk = *ch.pick(&[usize::MAX, 7]);
                let got = by_reader(entry, &mut r)?;
                compare(entry, d, &format!("a fault {:?} at {}", kind, at), got, Got::Io(format!("{:?} planned fault", kind)), w)
            }),
            Family::new("prefixes", &format!("every prefix, in bytes, of {} documents as a slice and by a reader", docs4.len()), move |ch, w| {
                let d = ch.pick(&docs4).as_bytes();
                let entry = ch.choose(ENTRIES);
                let d = &d[..ch.choose(d.len() + 1)];
                if ch.flag() {
                    compare(entry, d, "a slice", by_slice(entry, d)?, expected(entry, d, false)?, w)
                } else {
                    compare(entry, d, "a reader", by_reader(entry, &mut plan(d))?, expected(entry, d, true)?, w)
                }
            }),
            Family::new("bytes", "every string of up to 5 (thorough: 6) of 18 bytes in 4 places as a slice and by a reader", move |ch, w| {
                const B: &[&[u8]] = &[b"a", b"=", b"1", b"\n", b"\"", b"\x80", b"\xbf", b"\xc3", b"\xa9", b"\xe2", b"\x82", b"\xac", b"\xf0", b"\x9f", b"\xff", b"\0", b"\xed\xa0\x80", b"\xef\xbb\xbf"];
                let mut m = vec![];
                for _ in 0..if t { 6 } else { 5 } {
                    let i = ch.choose(B.len() + 1);
                    if i == 0 {
                        break;
                    }
                    m.extend_from_slice(B[i - 1]);
                }
                let (a, z): (&[u8], &[u8]) = *ch.pick(&[(b"" as &[u8], b"" as &[u8]), (b"a=\"", b"\"\n"), (b"a=1#", b"\n"), (b"a=1\n", b"")]);
                let d = [a, &m, z].concat();
                let entry = ch.choose(ENTRIES);
                ch.note(|| format!("{:?} entry {}", String::from_utf8_lossy(&d), entry));
                if ch.flag() {
                    compare(entry, &d, "a slice", by_slice(entry, &d)?, expected(entry, &d, false)?, w)
                } else {
                    compare(entry, &d, "a reader", by_reader(entry, &mut plan(&d))?, expected(entry, &d, true)?, w)
                }
            }),
            Family::new("tokens", "every string of up to 4 of 22 tokens as a slice and by a reader of single bytes", |ch, w| {
                let s = gen::word(ch, accept::TOKENS, 4);
                let entry = ch.choose(ENTRIES);
                let d = s.as_bytes();
                ch.note(|| s.clone());
                let exp = by_str(entry, &s)?;
                let mut r = plan(d);
                r.chunk = 1;
                compare(entry, d, "a slice", by_slice(entry, d)?, exp.clone(), false)?;
                compare(entry, d, "a reader of single bytes", by_reader(entry, &mut r)?, exp, w)
            }),
            Family::new("growth", &format!("{} kinds of growth at {} sizes as a slice and by readers of 3 chunk sizes", ramp::FLAT, sizes.len()), move |ch, w| {
                let n = *ch.pick(&sizes);
                let (s, _) = ramp::flat(ch.choose(ramp::FLAT), n);
                let entry = ch.choose(ENTRIES);
                let d = s.as_bytes();
                let exp = by_str(entry, &s)?;
                let got = match ch.choose(4) {
                    0 => by_slice(entry, d)?,
                    k => {
                        let mut r = plan(d);
                        r.chunk = [1, 31, 4096][k - 1];
                        by_reader(entry, &mut r)?
                    }
                };
                compare(entry, d, "a slice or a reader", got, exp, w)
            }),
            Family::new("large", &format!("a comment or a string of {} sizes up to {} bytes, ASCII or not, before an attribute, as a slice and by readers of 3 chunk sizes", big.len(), big[big.len() - 1]), move |ch, w| {
                let n = *ch.pick(&big);
                let kind = ch.choose(3);
                let entry = ch.choose(ENTRIES);
                let how = ch.choose(4);
                let (s, v) = match kind {
                    0 => (format!("#{}\nb = 2\n", "x".repeat(n)), None),
                    1 => (format!("#{}\nb = 2\n", "é".repeat(n / 2)), None),
                    _ => {
                        let v = "\u{20ac}".repeat(n.min(1 << 20) / 3);
                        (format!("a = \"{}\"\nb = 2\n", v), Some(v))
                    }
                };
                ch.note(|| format!("{} bytes, kind {}", n, kind));
                let d = s.as_bytes();
                let got = match how {
                    0 => by_slice(entry, d)?,
                    k => {
                        let mut r = plan(d);
                        r.chunk = [usize::MAX, 8191, 65536][k - 1];
                        by_reader(entry, &mut r)?
                    }
                };
                let exp = if entry == 0 {
                    let mut b = vec![];
                    if let Some(v) = v {
                        b.push(gen::attr("a", ME::Str(v)));
                    }
                    b.push(gen::attr("b", gen::num("2")));
                    Got::New(b)
                } else {
                    let mut e = vec![];
                    if let Some(v) = v {
                        e.push(("a".to_string(), MV::Str(v)));
                    }
                    e.push(("b".to_string(), MV::Int(2)));
                    Got::Old(MM { merged: entry == 2, entries: e })
                };
                compare(entry, d, "a slice or a reader", got, exp, w)
            }).limit(120),
        ]
    },
};

// ---------------------------------------------------------------- owned copies

fn numbers_alike(a: &Number, b: &Number) -> Result<(), String> {
    let all = |n: &Number| {
        format!(
            "{} {} {} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            &**n, n.is_float(), n.is_signed(), n.is_unsigned(), n.as_u8(), n.as_u16(), n.as_u32(), n.as_u64(), n.as_u128(), n.as_i8(), n.as_i16(), n.as_i32(), n.as_i64(), n.as_i128(), n.as_f32(), n.as_f64()
        )
    };
    let (x, y) = (all(a), all(b));
    if x != y {
        return Err(format!("the copy of the number differs:\n  {}\n  {}", x, y));
    }
    if a != b || model::hash(a) != model::hash(b) {
        return Err(format!("the copy of the number {} is unequal or hashes differently", &**a));
    }
    Ok(())
}

fn expr_alike(a: &Expression, depth: usize) -> Result<(), String> {
    let o = a.as_owned();
    if *a != o || model::expr(a) != model::expr(&o) || a.variant_name() != o.variant_name() {
        return Err(format!("the copy of the expression differs: {:?} and {:?}", a, o));
    }
    match a {
        Expression::Number(n) => {
            numbers_alike(n, &n.as_owned())?;
            if let Expression::Number(m) = &o {
                numbers_alike(n, m)?;
            }
            // and the copy of the copy, and of a clone
            numbers_alike(n, &n.clone().as_owned().as_owned())?;
        }
        Expression::Tuple(t) if depth > 0 => {
            for x in t {
                expr_alike(x, depth - 1)?;
            }
        }
        Expression::Object(ob) if depth > 0 => {
            for (k, v) in ob {
                let c = k.as_owned();
                if *k != c || model::okey(k) != model::okey(&c) || k.as_str() != c.as_str() || model::hash(k) != model::hash(&c) {
                    return Err(format!("the copy of the object key differs: {:?} and {:?}", k, c));
                }
                expr_alike(v, depth - 1)?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn body_alike(b: &[fc::parser::body::BodyElement], depth: usize) -> Result<(), String> {
    use fc::parser::body::BodyElement;
    for e in b {
        let c = e.as_owned();
        if *e != c || model::element(e) != model::element(&c) || e.is_block() != c.is_block() || e.is_attribute() != c.is_attribute() {
            return Err(format!("the copy of the element differs: {:?} and {:?}", e, c));
        }
        match e {
            BodyElement::Attribute(kv) => {
                let c = kv.as_owned();
                if *kv != c {
                    return Err(format!("the copy of the attribute differs: {:?} and {:?}", kv, c));
                }
                expr_alike(&kv.1, depth)?;
            }
            BodyElement::Block(b) => {
                for l in &b.labels {
                    let c = l.as_owned();
                    if *l != c || model::label(l) != model::label(&c) || l.as_str() != c.as_str() || l.as_cow() != c.as_cow() || model::hash(l) != model::hash(&c) {
                        return Err(format!("the copy of the label differs: {:?} and {:?}", l, c));
                    }
                }
                let c = b.as_owned();
                if *b != c || model::block(b) != model::block(&c) {
                    return Err(format!("the copy of the block differs: {:?} and {:?}", b, c));
                }
                if depth > 0 {
                    body_alike(&b.body, depth - 1)?;
                }
            }
        }
    }
    Ok(())
}

fn value_alike(v: &fc::Value) -> Result<(), String> {
    let c = v.as_owned();
    if *v != c || model::value(v) != model::value(&c) || v.len() != c.len() || v.variant_name() != c.variant_name() {
        return Err(format!("the copy of the value differs: {:?} and {:?}", v, c));
    }
    Ok(())
}

fn overwrite(s: String) {
    let mut b = s.into_bytes();
    for x in b.iter_mut() {
        *x = b'~';
    }
    std::hint::black_box(&b);
}

/// Checks the copies of everything a text parses to. Gives whether it parses to anything.
fn copies(text: &str, w: bool) -> Verdict {
    use fc::{Mergeable, ScalarLength};
    let mut class = 0;
    let mut any = false;
    guard(|| -> Result<(), String> {
        // configuration files
        let buf = text.to_string();
        let owned = match fc::parse_str(&buf) {
            Ok(b) => {
                let o = b.as_owned();
                if o != b || b != o || model::body(&b) != model::body(&o) || format!("{:?}", b) != format!("{:?}", o) {
                    return Err(format!("the copy of the document differs: {:?} and {:?}", b, o));
                }
                body_alike(&b, 4)?;
                class = model::hash(&model::body(&b));
                any |= !b.is_empty();
                Some((o, model::body(&b)))
            }
            Err(_) => None,
        };
        overwrite(buf);
        if let Some((o, m)) = owned {
            if model::body(&o) != m || fc::parse_str(text).map(|b| b != o).unwrap_or(true) {
                return Err(format!("the copy of the document changed with the text: {:?}", o));
            }
        }
        // expressions
        let buf = text.to_string();
        let owned = match Expression::parse(&buf) {
            Ok(e) => {
                expr_alike(&e, 6)?;
                class ^= model::hash(&model::expr(&e));
                any = true;
                Some((e.as_owned(), model::expr(&e)))
            }
            Err(_) => None,
        };
        overwrite(buf);
        if let Some((o, m)) = owned {
            if model::expr(&o) != m || Expression::parse(text).map(|e| e != o).unwrap_or(true) {
                return Err(format!("the copy of the expression changed with the text: {:?}", o));
            }
        }
        // the older front-end
        for entry in 1..3 {
            let buf = text.to_string();
            let owned = match fc::value::from_str(&buf, merge(entry)) {
                Ok(b) => {
                    let o = b.as_owned();
                    if o != b || b != o || model::map(&b) != model::map(&o) || b.is_merged() != o.is_merged() || b.is_unmerged() != o.is_unmerged() || b.len() != o.len() || b.len_scalar() != o.len_scalar() {
                        return Err(format!("the copy of the map differs: {:?} and {:?}", b, o));
                    }
                    // a merged map has no order
                    if entry == 1 && format!("{:?}", b) != format!("{:?}", o) {
                        return Err(format!("the copy of the map differs: {:?} and {:?}", b, o));
                    }
                    for (k, v) in b.iter() {
                        let c = k.as_owned();
                        if *k != c || **k != *c || model::hash(k) != model::hash(&c) || format!("{:?}", k) != format!("{:?}", c) {
                            return Err(format!("the copy of the key differs: {:?} and {:?}", k, c));
                        }
                        if o.get(&**k) != b.get(&**k) {
                            return Err(format!("the copy has {:?} under {:?}, not {:?}", o.get(&**k), k, b.get(&**k)));
                        }
                        value_alike(v)?;
                        if let fc::Value::List(l) = v {
                            for x in l {
                                value_alike(x)?;
                            }
                        }
                    }
                    class ^= model::hash(&model::map(&b));
                    any |= !b.is_empty();
                    Some((o, model::map(&b)))
                }
                Err(_) => None,
            };
            overwrite(buf);
            if let Some((o, m)) = owned {
                if model::map(&o) != m || fc::value::from_str(text, merge(entry)).map(|b| b != o).unwrap_or(true) {
                    return Err(format!("the copy of the map changed with the text: {:?}", o));
                }
            }
        }
        Ok(())
    })?
    .map_err(|e| format!("{}\n  text {}", clip(&e), clip(&format!("{:?}", text))))?;
    Ok(Obs { class, nontrivial: any, sample: if w { Some(clip(&format!("{:?}", text))) } else { None } })
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "an execution parses a text through every entry point, makes owned copies of the result and of everything in it, overwrites the text, and compares the copies with the originals and with a fresh parse; non-trivial: something was parsed",
    assumptions: &[],
    families: |t| {
        let docs = documents();
        let values = gen::values();
        let sizes = ramp::sizes(false);
        let depths = ramp::depths();
        vec![
            Family::new("tokens", "every string of up to 5 of 22 tokens", move |ch, w| {
                let s = gen::word(ch, accept::TOKENS, 5);
                ch.note(|| s.clone());
                copies(&s, w)
            }),
            Family::new("numbers", "every string of up to 6 of 8 characters, alone and as the value of an attribute", |ch, w| {
                let s = gen::word(ch, &["0", "1", "9", ".", "e", "-", "+", "5"], 6);
                ch.note(|| s.clone());
                if !super::numbers::is_literal(&s) {
                    return obs(0, false);
                }
                if ch.flag() {
                    copies(&s, w)
                } else {
                    copies(&format!("a = {}\nb = [{}]\n", s, s), w)
                }
            }),
            Family::new("values", &format!("all pairs of {} values in a tuple, an object, a block and a document", values.len()), move |ch, w| {
                let (a, _, ea) = ch.pick(&values).clone();
                let (b, _, eb) = ch.pick(&values).clone();
                let (ea, eb) = (if ea { "\n" } else { "" }, if eb { "\n" } else { "" });
                let s = match ch.choose(4) {
                    0 => format!("[{}{}, {}{}]", a, ea, b, eb),
                    1 => format!("{{ x = {}{}\n \"y\" = {}{}\n}}", a, ea, b, eb),
                    2 => format!("b \"l\" m {{\n x = {}\n y = {}\n}}\n", a, b),
                    _ => format!("x = {}\nx = {}\n", a, b),
                };
                ch.note(|| s.clone());
                copies(&s, w)
            }),
            Family::new("documents", &format!("{} documents", docs.len()), move |ch, w| {
                let s = ch.pick(&docs);
                copies(s, w)
            }),
            Family::new("old words", "every string of up to 6 of 12 entries of the older dialect", move |ch, w| {
                let s = gen::word(ch, &["a = 1\n", "\"a\" = 2\n", "b = \"x\"\n", "a {\n", "r \"l\" {\n", "r \"l\" \"m\" {\n", "}\n", "c = [1, {d = 2}]\n", "é = null\n", "f = 1.5\n", "a = true, ", "c = {a = 1}\n"], if t { 6 } else { 5 });
                ch.note(|| s.clone());
                copies(&s, w)
            }),
            Family::new("growth", &format!("{} kinds of growth at {} sizes", ramp::FLAT, sizes.len()), move |ch, w| {
                let n = *ch.pick(&sizes);
                let (s, _) = ramp::flat(ch.choose(ramp::FLAT), n);
                copies(&s, w)
            }),
            Family::new("nesting", &format!("{} kinds of nesting at {} depths", ramp::DEEP, depths.len()), move |ch, w| {
                let n = *ch.pick(&depths);
                let (s, _) = ramp::deep(ch.choose(ramp::DEEP), n);
                copies(&s, w)
            }),
            Family::new("native", "copies of 30 numbers made from native values", |ch, w| {
                macro_rules! go {
                    ($($v:expr),* $(,)?) => { vec![$( (|| numbers_alike(&Number::from($v), &Number::from($v).as_owned())) as fn() -> Result<(), String> ),*] };
                }
                let all = go!(0u8, 255u8, -128i8, 65535u16, i16::MIN, u32::MAX, i32::MIN, u64::MAX, i64::MIN, u128::MAX, i128::MIN, i128::MAX, 0f64, -0f64, 1f64, -1f64, 0.5f64, -0.5f64, 0.1f64, 1e21f64, 1e-7f64, f64::MAX, f64::MIN_POSITIVE, 0.1f32, f32::MAX, -1.5f32, 1e-45f32, 100f32, -0f32, 2.5e-3f32);
                let i = ch.choose(all.len());
                guard(|| all[i]())??;
                let _ = w;
                obs(i as u64, true)
            }),
            Family::new("containers", "copies of options, references, pairs, vectors, maps and texts of up to 3 of 4 pieces", |ch, w| {
                use std::borrow::Cow;
                use std::collections::HashMap;
                let a = gen::word(ch, &["a", "é", "\n", "😀"], 3);
                let b = gen::word(ch, &["a", "é"], 2);
                ch.note(|| format!("{:?} {:?}", a, b));
                let r = guard(|| {
                    let some: Option<String> = Some(a.clone());
                    let none: Option<String> = None;
                    let map: HashMap<String, Vec<String>> = vec![(a.clone(), vec![b.clone(), a.clone()]), (b.clone(), vec![])].into_iter().collect();
                    let cow: Cow<str> = Cow::Borrowed(&a);
                    let c: String = cow.as_owned();
                    let sized: Cow<String> = if a.len() < 2 { Cow::Borrowed(&a) } else { Cow::Owned(a.clone()) };
                    let d: Cow<'static, String> = AsOwned::as_owned(&sized);
                    let merged: fc::KeyValuePairs<String, String> = fc::KeyValuePairs::Merged(vec![(a.clone(), b.clone())].into_iter().collect());
                    let unmerged: fc::KeyValuePairs<String, String> = fc::KeyValuePairs::Unmerged(vec![(a.clone(), b.clone()), (a.clone(), a.clone())]);
                    a.as_owned() == a && a.as_str().as_owned() == a && some.as_owned() == some && none.as_owned() == none && map.as_owned() == map && c == a && *d == a && *sized == a && (a.clone(), b.clone()).as_owned() == (a.clone(), b.clone())
                        && vec![a.clone(), b.clone(), a.clone()].as_owned() == vec![a.clone(), b.clone(), a.clone()] && merged.as_owned() == merged && unmerged.as_owned() == unmerged && (&&a).as_owned() == a
                })?;
                if !r {
                    return Err(format!("a copy of a container of {:?} and {:?} differs", a, b));
                }
                Ok(Obs { class: hash_str(&a), nontrivial: true, sample: if w { Some(a) } else { None } })
            }),
        ]
        .into_iter()
        .chain(gen::mixtures(t, copies).into_iter().skip(1 - t as usize))
        .collect()
    },
};
