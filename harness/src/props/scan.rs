//! C28: scanning for a match.
use crate::explore::*;
use crate::{gen, Prop};
use fc::take_till_match;
use fc::utils::{while_predicate1, SafeIndexing};
use ferrous_chloride as fc;
use nom::types::{CompleteByteSlice, CompleteStr};
use nom::{alt, call, do_parse, is_a, named, tag, IResult};

const LETTERS: &[&str] = &["a", "b", "é", "老", "😀", "\n"];

/// Two characters `a` in a row, or a failure that is not to be recovered from.
fn strict<'a>(i: CompleteStr<'a>) -> IResult<CompleteStr<'a>, CompleteStr<'a>, u32> {
    let r: IResult<CompleteStr, CompleteStr, u32> = tag!(i, "aa");
    r.map_err(|e| match e {
        nom::Err::Error(c) => nom::Err::Failure(c),
        e => e,
    })
}

// the children
named!(s_tag<&str, (&str, &str)>, take_till_match!(tag!("ab")));
named!(s_alt<&str, (&str, &str)>, take_till_match!(alt!(tag!("é") | tag!("bb"))));
named!(s_wide<&str, (&str, &str)>, take_till_match!(tag!("😀a")));
named!(s_seq<&str, (&str, (&str, &str))>, take_till_match!(do_parse!(x: tag!("老") >> y: tag!("b") >> (x, y))));
named!(s_many<&str, (&str, &str)>, take_till_match!(is_a!("aé")));
named!(c_tag<CompleteStr, (CompleteStr, CompleteStr)>, take_till_match!(tag!("ab")));
named!(c_alt<CompleteStr, (CompleteStr, CompleteStr)>, take_till_match!(alt!(tag!("é") | tag!("bb"))));
named!(c_wide<CompleteStr, (CompleteStr, CompleteStr)>, take_till_match!(tag!("😀a")));
named!(c_seq<CompleteStr, (CompleteStr, (CompleteStr, CompleteStr))>, take_till_match!(do_parse!(x: tag!("老") >> y: tag!("b") >> (x, y))));
named!(c_many<CompleteStr, (CompleteStr, CompleteStr)>, take_till_match!(is_a!("aé")));
named!(c_call<CompleteStr, (CompleteStr, CompleteStr)>, take_till_match!(call!(strict)));
named!(c_func<CompleteStr, (CompleteStr, CompleteStr)>, take_till_match!(strict));
named!(b_tag<&[u8], (&[u8], &[u8])>, take_till_match!(tag!("ab")));
named!(b_wide<&[u8], (&[u8], &[u8])>, take_till_match!(tag!(&[0x98u8, 0x80][..])));
named!(cb_tag<CompleteByteSlice, (CompleteByteSlice, CompleteByteSlice)>, take_till_match!(tag!("ab")));
named!(cb_alt<CompleteByteSlice, (CompleteByteSlice, CompleteByteSlice)>, take_till_match!(alt!(tag!("a") | tag!("b"))));

/// A naive search: the child is tried at each place in turn. `child` says how long its match at
/// the start of a text is.
fn first(n: usize, places: impl Iterator<Item = usize>, child: impl Fn(usize) -> Option<usize>) -> Option<(usize, usize)> {
    for i in places {
        if i < n {
            if let Some(l) = child(i) {
                return Some((i, i + l));
            }
        }
    }
    None
}

fn want(what: &str, s: &str, got: Option<(usize, usize, usize, bool)>, exp: Option<(usize, usize)>, len: usize) -> Result<u64, String> {
    // before, match and rest, as lengths
    let e = exp.map(|(i, j)| (i, j - i, len - j));
    let g = got.map(|x| (x.0, x.1, x.2));
    if g != e {
        return Err(format!("{} in {:?}: {:?} (before, match, rest) instead of {:?}", what, crate::model::clip(s), g, e));
    }
    if let Some((_, _, _, false)) = got {
        return Err(format!("{} in {:?}: the parts are not those of the input", what, crate::model::clip(s)));
    }
    Ok(e.map_or(0, |e| 1 + e.0 as u64))
}

fn search(s: &str) -> Result<u64, String> {
    let n = s.len();
    let tag = |t: &'static str| move |i: usize| if s[i..].starts_with(t) { Some(t.len()) } else { None };
    let bounds = || s.char_indices().map(|x| x.0);
    let many = |i: usize| {
        let l = s[i..].find(|c| c != 'a' && c != 'é').unwrap_or(n - i);
        if l == 0 {
            None
        } else {
            Some(l)
        }
    };
    macro_rules! strs {
        ($f:ident) => {
            guard(|| $f(s))?.ok().map(|(r, (a, m))| (a.len(), m.len(), r.len(), format!("{}{}{}", a, m, r) == s))
        };
    }
    macro_rules! cstrs {
        ($f:ident) => {
            guard(|| $f(CompleteStr(s)))?.ok().map(|(r, (a, m))| (a.0.len(), m.0.len(), r.0.len(), format!("{}{}{}", a.0, m.0, r.0) == s))
        };
    }
    let mut h = 0u64;
    let mut add = |r: Result<u64, String>| -> Result<(), String> {
        h = h.wrapping_mul(31).wrapping_add(r?);
        Ok(())
    };
    let e = first(n, bounds(), tag("ab"));
    add(want("ab", s, strs!(s_tag), e, n))?;
    add(want("ab", s, cstrs!(c_tag), e, n))?;
    let e = first(n, bounds(), |i| tag("é")(i).or_else(|| tag("bb")(i)));
    add(want("é or bb", s, strs!(s_alt), e, n))?;
    add(want("é or bb", s, cstrs!(c_alt), e, n))?;
    let e = first(n, bounds(), tag("😀a"));
    add(want("😀a", s, strs!(s_wide), e, n))?;
    add(want("😀a", s, cstrs!(c_wide), e, n))?;
    let e = first(n, bounds(), tag("老b"));
    let g = guard(|| s_seq(s))?.ok().map(|(r, (a, (x, y)))| (a.len(), x.len() + y.len(), r.len(), format!("{}{}{}{}", a, x, y, r) == s));
    add(want("老, b", s, g, e, n))?;
    let g = guard(|| c_seq(CompleteStr(s)))?.ok().map(|(r, (a, (x, y)))| (a.0.len(), x.0.len() + y.0.len(), r.0.len(), format!("{}{}{}{}", a.0, x.0, y.0, r.0) == s));
    add(want("老, b", s, g, e, n))?;
    let e = first(n, bounds(), many);
    add(want("a and é", s, cstrs!(c_many), e, n))?;
    // on a text that might go on, a match at the end is not certain
    if e.map_or(true, |e| e.1 < n) {
        add(want("a and é", s, strs!(s_many), e, n))?;
    } else {
        guard(|| s_many(s))?.ok();
    }
    let e = first(n, bounds(), tag("aa"));
    add(want("aa or failure", s, cstrs!(c_call), e, n))?;
    add(want("aa or failure, by name", s, cstrs!(c_func), e, n))?;
    // bytes
    let b = s.as_bytes();
    let btag = |t: &'static [u8]| move |i: usize| if b[i..].starts_with(t) { Some(t.len()) } else { None };
    let e = first(n, 0..n, btag(b"ab"));
    let whole = |a: &[u8], m: &[u8], r: &[u8]| [a, m, r].concat() == b;
    let g = guard(|| b_tag(b))?.ok().map(|(r, (a, m))| (a.len(), m.len(), r.len(), whole(a, m, r)));
    add(want("ab in bytes", s, g, e, n))?;
    let g = guard(|| cb_tag(CompleteByteSlice(b)))?.ok().map(|(r, (a, m))| (a.len(), m.len(), r.len(), whole(&a, &m, &r)));
    add(want("ab in complete bytes", s, g, e, n))?;
    let e = first(n, 0..n, btag(&[0x98, 0x80]));
    let g = guard(|| b_wide(b))?.ok().map(|(r, (a, m))| (a.len(), m.len(), r.len(), whole(a, m, r)));
    add(want("98 80 in bytes", s, g, e, n))?;
    let e = first(n, 0..n, |i| btag(b"a")(i).or_else(|| btag(b"b")(i)));
    let g = guard(|| cb_alt(CompleteByteSlice(b)))?.ok().map(|(r, (a, m))| (a.len(), m.len(), r.len(), whole(&a, &m, &r)));
    add(want("a or b in complete bytes", s, g, e, n))?;
    Ok(h)
}

fn indices(s: &str) -> Result<(), String> {
    let exp: Vec<usize> = (0..s.len()).filter(|i| s.is_char_boundary(*i)).collect();
    let all: Vec<usize> = (0..s.len()).collect();
    let got: [(&str, Vec<usize>, &[usize]); 4] = [
        ("a string", guard(|| s.safe_indices().collect())?, &exp),
        ("a complete string", guard(|| CompleteStr(s).safe_indices().collect())?, &exp),
        ("bytes", guard(|| s.as_bytes().safe_indices().collect())?, &all),
        ("complete bytes", guard(|| CompleteByteSlice(s.as_bytes()).safe_indices().collect())?, &all),
    ];
    for (what, g, e) in &got {
        if g != e {
            return Err(format!("the safe positions of {} {:?} are {:?} instead of {:?}", what, crate::model::clip(s), g, e));
        }
    }
    let v: Vec<u32> = s.chars().map(|c| c as u32).collect();
    let g: Vec<usize> = guard(|| (&v[..]).safe_indices().collect())?;
    if g != (0..v.len()).collect::<Vec<_>>() {
        return Err(format!("the safe positions of a slice of {} are {:?}", v.len(), g));
    }
    Ok(())
}

/// The longest prefix that satisfies a predicate.
fn prefix(s: &str) -> Result<(), String> {
    let preds: [(&str, fn(char) -> bool); 4] = [("a", |c| c == 'a'), ("not b", |c| c != 'b'), ("not ASCII", |c| !c.is_ascii()), ("any", |_| true)];
    for (name, p) in preds {
        let l = s.find(|c| !p(c)).unwrap_or(s.len());
        let r = guard(|| while_predicate1(CompleteStr(s), p))?;
        let ok = match &r {
            Ok((rest, got)) => l > 0 && got.0 == &s[..l] && rest.0 == &s[l..],
            Err(_) => l == 0,
        };
        if !ok {
            return Err(format!("taking characters that are {} of {:?} gives {:?}", name, crate::model::clip(s), r));
        }
    }
    Ok(())
}

fn all(s: &str, w: bool) -> Verdict {
    let h = search(s)?;
    indices(s)?;
    prefix(s)?;
    obs_with(h, h != 0, w, || format!("{:?}", s))
}

pub const C28: Prop = Prop {
    id: "C28",
    rule: "an execution makes a text and compares every search for a child (7 children on complete strings, 5 on strings, 4 on bytes), the safe positions and the longest prefixes with naive computations; non-trivial: some child matches",
    assumptions: &["the children (nom's tag, alt, is_a, do_parse) are right about single places"],
    families: |t| {
        let n = if t { 9 } else { 7 };
        vec![
            Family::new("words", &format!("every text of at most {} of {:?}", n, LETTERS), move |ch, w| {
                let s = gen::word(ch, LETTERS, n);
                ch.note(|| format!("{:?}", s));
                all(&s, w)
            }),
            Family::new("late matches", "each of 16 needles after 0 to 300 (thorough: 3000) of each of 6 letters, and nothing or a letter after it", move |ch, w| {
                let n = if t { *ch.pick(&[0, 1, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 3000]) } else { ch.range(0, 300) };
                let l = *ch.pick(LETTERS);
                let needle = *ch.pick(&["", "ab", "é", "bb", "😀a", "老b", "a", "aa", "aé", "b", "éb", "老", "😀", "老a", "\n", "é😀ab"]);
                let after = *ch.pick(&["", "a", "b", "é", "老", "😀"]);
                let s = format!("{}{}{}", l.repeat(n), needle, after);
                ch.note(|| format!("{:?}", s));
                all(&s, w)
            }),
            Family::new("far matches", "each of 7 needles after 4095 to 65537 (thorough: 200000) of each of 3 letters", move |ch, w| {
                let l = *ch.pick(&["b", "老", "😀"]);
                let needle = *ch.pick(&["", "ab", "é", "😀a", "老b", "aa", "\n"]);
                let k = crate::ramp::large(t);
                let m = [4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536];
                let i = ch.choose(m.len() + k.len());
                let n = if i < m.len() { m[i] } else { k[i - m.len()] };
                let s = format!("{}{}", l.repeat(n), needle);
                ch.note(|| format!("{} times {:?} and then {:?}", n, l, needle));
                all(&s, w)
            })
            .limit(300),
            Family::new("characters", "every Unicode scalar alone, doubled, before and after a match", |ch, w| {
                let c = super::total::scalar(ch.choose(super::total::scalars()));
                let s = match ch.choose(4) {
                    0 => c.to_string(),
                    1 => format!("{}{}", c, c),
                    2 => format!("{}ab", c),
                    _ => format!("é{}b", c),
                };
                ch.note(|| format!("{:?}", s));
                all(&s, w)
            }),
        ]
    },
};
