//! C30: parse failures become the right kind of error.
use crate::explore::*;
use crate::Prop;
use fc::Error;
use ferrous_chloride as fc;
use nom::types::{CompleteByteSlice, CompleteStr};
use nom::verbose_errors::Context;
use nom::{AsBytes, ErrorKind, Needed};
use std::fmt::Debug;

const KINDS: usize = 10;

fn kind(k: usize) -> ErrorKind<u32> {
    match k {
        0..=2 => ErrorKind::Custom(k as u32),
        3 => ErrorKind::Custom(3),
        4 => ErrorKind::Custom(u32::MAX),
        5 => ErrorKind::Tag,
        6 => ErrorKind::Alt,
        7 => ErrorKind::Custom(256),
        8 => ErrorKind::TakeUntil,
        _ => ErrorKind::Custom(257),
    }
}

/// What an entry stands for: its kind and its text or bytes.
#[derive(PartialEq, Debug)]
enum Want {
    CodePoint(String),
    Unicode(Vec<u8>),
    Number(String),
    Generic,
}

fn meaning(k: usize, bytes: &[u8]) -> Want {
    let text = || std::str::from_utf8(bytes).map(|s| s.to_string()).unwrap_or_else(|_| "UNKNOWN".into());
    match k {
        0 => Want::CodePoint(text()),
        1 => Want::Unicode(bytes.to_vec()),
        2 => Want::Number(text()),
        _ => Want::Generic,
    }
}

fn seen(e: &Error) -> Result<Want, String> {
    Ok(match e {
        Error::InvalidUnicodeCodePoint(s) => Want::CodePoint(s.clone()),
        Error::InvalidUnicode(b) => Want::Unicode(b.clone()),
        Error::InvalidNumber(s) => Want::Number(s.clone()),
        Error::ParseError(_) => Want::Generic,
        e => return Err(format!("a parse failure became {:?}", e)),
    })
}

fn display(e: &Error) -> Result<(), String> {
    let s = guard(|| (format!("{}", e), format!("{:?}", e), format!("{:#}", e)))?;
    if s.0.is_empty() {
        return Err(format!("{:?} displays as nothing", e));
    }
    let name = |t: &str, p: &str| if t.contains(p) { Ok(()) } else { Err(format!("{:?} displays as {:?}", e, t)) };
    match e {
        Error::InvalidUnicodeCodePoint(t) | Error::InvalidNumber(t) | Error::ParseError(t) | Error::UnexpectedRemainingInput(t) | Error::Bug(t) => name(&s.0, t),
        Error::IllegalMultipleEntries { key, variant } => name(&s.0, key).and(name(&s.0, variant)),
        Error::ErrorMergingKeys { key, existing_variant, incoming_variant } => name(&s.0, key).and(name(&s.0, existing_variant)).and(name(&s.0, incoming_variant)),
        Error::UnexpectedVariant { expected, actual, .. } => name(&s.0, expected).and(name(&s.0, actual)),
        _ => Ok(()),
    }
}

/// How an input type is made of bytes, and converted.
trait Inp: AsBytes + Debug + Clone + PartialEq {
    fn make(b: &'static [u8]) -> Option<Self>;
    fn from_err(e: &nom::Err<Self>) -> Vec<Error>;
    fn convert(e: nom::Err<Self>) -> Vec<nom::Err<Self, Error>>;
}

fn by_macro<I: Clone>(e: &nom::Err<I>) -> nom::IResult<I, (), u32> {
    Err(e.clone())
}
macro_rules! fails {
    ($i:expr, $e:expr) => {{
        let _ = $i;
        by_macro(&$e)
    }};
}

impl Inp for &'static str {
    fn make(b: &'static [u8]) -> Option<Self> {
        std::str::from_utf8(b).ok()
    }
    fn from_err(e: &nom::Err<Self>) -> Vec<Error> {
        vec![Error::from_err_str(e), Error::from_err_bytes(e)]
    }
    fn convert(e: nom::Err<Self>) -> Vec<nom::Err<Self, Error>> {
        vec![
            Error::make_custom_err_str(e.clone()),
            Error::make_custom_err_bytes(e.clone()),
            Error::make_custom_error(e.clone(), |s| Some(s.to_string())),
            fc::map_err_str!((), fails!(e)).unwrap_err(),
            fc::map_err!((), fails!(e)).unwrap_err(),
        ]
    }
}
impl Inp for CompleteStr<'static> {
    fn make(b: &'static [u8]) -> Option<Self> {
        std::str::from_utf8(b).ok().map(CompleteStr)
    }
    fn from_err(e: &nom::Err<Self>) -> Vec<Error> {
        vec![Error::from_err_str(e), Error::from_err_bytes(e)]
    }
    fn convert(e: nom::Err<Self>) -> Vec<nom::Err<Self, Error>> {
        vec![Error::make_custom_err_str(e.clone()), Error::make_custom_err_bytes(e.clone()), fc::map_err_str!((), fails!(e)).unwrap_err()]
    }
}
impl Inp for &'static [u8] {
    fn make(b: &'static [u8]) -> Option<Self> {
        Some(b)
    }
    fn from_err(e: &nom::Err<Self>) -> Vec<Error> {
        vec![Error::from_err_bytes(e)]
    }
    fn convert(e: nom::Err<Self>) -> Vec<nom::Err<Self, Error>> {
        vec![Error::make_custom_err_bytes(e.clone()), fc::map_err!((), fails!(e)).unwrap_err()]
    }
}
impl Inp for CompleteByteSlice<'static> {
    fn make(b: &'static [u8]) -> Option<Self> {
        Some(CompleteByteSlice(b))
    }
    fn from_err(e: &nom::Err<Self>) -> Vec<Error> {
        vec![Error::from_err_bytes(e)]
    }
    fn convert(e: nom::Err<Self>) -> Vec<nom::Err<Self, Error>> {
        vec![Error::make_custom_err_bytes(e)]
    }
}

/// A failure: its severity (0 error, 1 failure, 2 incomplete) and its entries.
struct Case {
    severity: usize,
    list: bool,
    entries: Vec<(usize, &'static [u8])>,
}

fn judge<I: Inp>(c: &Case) -> Result<bool, String> {
    let mut v: Vec<(I, ErrorKind<u32>)> = vec![];
    for (k, b) in &c.entries {
        match I::make(b) {
            Some(i) => v.push((i, kind(*k))),
            None => return Ok(false),
        }
    }
    let context = if c.list { Context::List(v.clone()) } else { Context::Code(v[0].0.clone(), v[0].1.clone()) };
    let e: nom::Err<I> = match c.severity {
        0 => nom::Err::Error(context),
        1 => nom::Err::Failure(context),
        2 => nom::Err::Incomplete(Needed::Size(7)),
        _ => nom::Err::Incomplete(Needed::Unknown),
    };
    // to the library's error
    let want = match (c.severity, c.entries.last()) {
        (1, Some((k, b))) => meaning(*k, b),
        _ => Want::Generic,
    };
    for got in guard(|| I::from_err(&e))? {
        display(&got)?;
        if seen(&got)? != want {
            return Err(format!("{:?} becomes {:?} instead of {:?}", e, got, want));
        }
    }
    // within nom's type
    for got in guard(|| I::convert(e.clone()))? {
        let context = match (&got, c.severity) {
            (nom::Err::Error(x), 0) => x,
            (nom::Err::Failure(x), 1) => x,
            (nom::Err::Incomplete(Needed::Size(7)), 2) | (nom::Err::Incomplete(Needed::Unknown), 3) => continue,
            _ => return Err(format!("converting {:?} changes its severity", e)),
        };
        let (list, got) = match context {
            Context::Code(i, k) => (false, vec![(i, k)]),
            Context::List(l) => (true, l.iter().map(|x| (&x.0, &x.1)).collect::<Vec<_>>()),
        };
        if list != c.list || got.len() != v.len() {
            return Err(format!("converting {:?} changes its entries", e));
        }
        for ((i, k), ((wi, _), (wk, b))) in got.iter().zip(v.iter().zip(&c.entries)) {
            if *i != wi {
                return Err(format!("converting {:?} changes a position", e));
            }
            match k {
                ErrorKind::Custom(err) => {
                    display(err)?;
                    if seen(err)? != meaning(*wk, b) {
                        return Err(format!("converting {:?} makes {:?} of an entry", e, err));
                    }
                }
                _ => return Err(format!("converting {:?} leaves an entry as it was", e)),
            }
        }
    }
    Ok(true)
}

const TEXTS: &[&[u8]] = &[b"", b"abc", "é\n\u{0}".as_bytes(), b"\xff", b"a\xc3", b"\\uD800\"", &[b'x'; 300]];

fn cases(max: usize) -> Family {
    Family::new("failures", &format!("failures of each severity, of one kind or a list of at most {} entries, of {} kinds at {} texts, on 4 types of input", max, KINDS, TEXTS.len()), move |ch, w| {
        let severity = ch.choose(4);
        let list = ch.flag();
        let mut entries = vec![];
        if severity < 2 {
            let n = if list { ch.range(0, max) } else { 1 };
            for i in 0..n {
                // all but the last two entries are of few kinds
                let few = i + 2 < n;
                entries.push((if few { *ch.pick(&[0usize, 2, 5]) } else { ch.choose(KINDS) }, TEXTS[if few { 1 } else { ch.choose(TEXTS.len()) }]));
            }
        } else if !list {
            entries.push((0, TEXTS[1]));
        }
        let c = Case { severity, list, entries };
        ch.note(|| format!("severity {} list {} {:?}", c.severity, c.list, c.entries));
        let r = [judge::<&str>(&c)?, judge::<CompleteStr>(&c)?, judge::<&[u8]>(&c)?, judge::<CompleteByteSlice>(&c)?];
        let h = hash_str(&format!("{}{}{:?}", c.severity, c.list, c.entries.iter().map(|e| e.0).collect::<Vec<_>>()));
        obs_with(h, r[2], w, || format!("severity {} list {} {:?}", c.severity, c.list, c.entries))
    })
}

fn codes(max: u32) -> Family {
    Family::new("codes", &format!("every custom code up to {} and around the powers of two, as error and failure, alone and in a list", max), move |ch, w| {
        let code = if ch.flag() {
            let b = ch.range(0, 31);
            (1u32 << b).wrapping_add(ch.range(0, 6) as u32).wrapping_sub(3)
        } else {
            ch.choose(max as usize + 1) as u32
        };
        let (fail, list) = (ch.flag(), ch.flag());
        let i = CompleteStr("x");
        let k = ErrorKind::Custom(code);
        let c = if list { Context::List(vec![(i, ErrorKind::Tag), (i, k)]) } else { Context::Code(i, k) };
        let e: nom::Err<CompleteStr> = if fail { nom::Err::Failure(c) } else { nom::Err::Error(c) };
        ch.note(|| format!("{:?}", e));
        let want = if fail && code <= 2 { meaning(code as usize, b"x") } else { Want::Generic };
        for got in guard(|| [Error::from_err_str(&e), Error::from_err_bytes(&e)])? {
            if seen(&got)? != want {
                return Err(format!("{:?} becomes {:?} instead of {:?}", e, got, want));
            }
        }
        obs_with(u64::from(code), true, w, || format!("{:?}", e))
    })
}

/// Lists of every length: the last entry counts.
fn long_lists() -> Family {
    Family::new("long lists", "lists of up to 40, and 100, 255, 256, 257 and 1000 entries, the last of each kind, after entries of each kind", |ch, w| {
        let n = match ch.choose(46) {
            n if n <= 40 => n,
            n => [100, 255, 256, 257, 1000][n - 41],
        };
        let (before, last) = (ch.choose(KINDS), ch.choose(KINDS));
        let mut entries: Vec<(usize, &'static [u8])> = vec![(before, TEXTS[2]); n];
        entries.push((last, TEXTS[1]));
        for severity in 0..2 {
            let c = Case { severity, list: true, entries: entries.clone() };
            judge::<CompleteStr>(&c)?;
            judge::<&[u8]>(&c)?;
        }
        obs_with((n * 100 + before * 10 + last) as u64, true, w, || format!("{} entries of kind {}, then {}", n, before, last))
    })
}

/// Errors of all kinds can be displayed, also as those of deserializing.
fn displays() -> Family {
    Family::new("displays", "every kind of error with texts of 6 kinds, alone and as an error of deserializing", |ch, w| {
        let t = ch.pick(&["", "a", "{}", "é\n", "%s {0}", "\u{0}"]).to_string();
        let e = match ch.choose(11) {
            0 => Error::InvalidUnicodeCodePoint(t),
            1 => Error::InvalidNumber(t),
            2 => Error::InvalidUnicode(t.into_bytes()),
            3 => Error::ParseError(t),
            4 => Error::IllegalMultipleEntries { key: t, variant: "Block" },
            5 => Error::ErrorMergingKeys { key: t, existing_variant: "Integer", incoming_variant: "Block" },
            6 => Error::UnexpectedVariant { enum_type: "Value", expected: "Integer", actual: "Null" },
            7 => Error::from(std::io::Error::new(std::io::ErrorKind::Other, t)),
            8 => Error::from(std::str::from_utf8(b"a\xff").unwrap_err()),
            9 => Error::UnexpectedRemainingInput(t),
            _ => Error::Bug(t),
        };
        display(&e)?;
        let text = e.to_string();
        let d = fc::serde::de::Error::from(e);
        let shown = guard(|| format!("{} {:?}", d, d))?;
        if !shown.contains(&text) {
            return Err(format!("an error of deserializing hides what went wrong: {:?} instead of {:?}", shown, text));
        }
        let c = fc::serde::de::Compat::from(d);
        if !guard(|| format!("{} {:?}", c, c))?.contains(&text) {
            return Err(format!("an error of deserializing hides what went wrong: {:?}", text));
        }
        let back = guard(|| fc::serde::de::Error::from(c))?;
        if !back.to_string().contains(&text) {
            return Err(format!("an error of deserializing changes on the way: {:?}", back));
        }
        obs_with(hash_str(&text), true, w, || text.clone())
    })
}

pub const C30: Prop = Prop {
    id: "C30",
    rule: "an execution makes a parse failure of the low-level type (its severity, its entries, their kinds and texts) on each type of input and compares every conversion of it with a table; every execution on bytes is non-trivial",
    assumptions: &["codes 0, 1 and 2 stand for invalid code points, invalid Unicode and invalid numbers (the library's own table)"],
    families: |t| vec![cases(if t { 5 } else { 4 }), codes(if t { 100_000 } else { 2000 }), long_lists(), displays()],
};
