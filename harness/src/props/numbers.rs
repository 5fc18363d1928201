//! C08 text and conversions of numbers, C09 equality and hashing.
use crate::explore::*;
use crate::{gen, model, ramp, refparse, Prop};
use ferrous_chloride as fc;
use fc::parser::number::Number;
use fc::parser::Expression;
use std::sync::Arc;

fn parse(text: &str) -> Option<Number<'_>> {
    match Expression::parse(text) {
        Ok(Expression::Number(n)) => Some(n),
        _ => None,
    }
}

/// Whether the whole text is a number literal.
pub fn is_literal(s: &str) -> bool {
    matches!((refparse::P { s }).number(0), Some((p, _)) if p == s.len())
}

/// A decimal integer without leading zeros, with a sign when negative and not zero.
fn plain_int(s: &str) -> String {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let d = d.trim_start_matches('0');
    match (d.is_empty(), neg) {
        (true, _) => "0".to_string(),
        (_, true) => format!("-{}", d),
        _ => d.to_string(),
    }
}

/// `a <= b` for plain integers.
fn le(a: &str, b: &str) -> bool {
    let (na, nb) = (a.starts_with('-'), b.starts_with('-'));
    let (da, db) = (a.trim_start_matches('-'), b.trim_start_matches('-'));
    let less = |x: &str, y: &str| (x.len(), x) <= (y.len(), y);
    match (na, nb) {
        (true, false) => true,
        (false, true) => false,
        (false, false) => less(da, db),
        (true, true) => less(db, da),
    }
}

/// Checks one integer conversion of a literal. `int` says that it is an integer literal.
fn conversion(name: &str, text: &str, int: bool, got: Option<String>, min: String, max: String) -> Result<(), String> {
    if int {
        let exact = plain_int(text);
        let fits = le(&min, &exact) && le(&exact, &max);
        // an unsigned type need not take a minus sign
        let may_fail = min == "0" && text.starts_with('-');
        match &got {
            Some(g) if *g != exact => return Err(format!("{} of {} gives {}", name, model::clip(text), g)),
            Some(g) if !fits => return Err(format!("{} of {} gives {} out of range", name, model::clip(text), g)),
            None if fits && !may_fail => return Err(format!("{} of {} fails", name, model::clip(text))),
            _ => {}
        }
    } else if let Some(g) = &got {
        // a float literal may only convert when it is that integer
        if scaled(text, 400) != scaled(g, 400) {
            return Err(format!("{} of {} gives {}", name, model::clip(text), g));
        }
    }
    Ok(())
}

macro_rules! ints {
    ($n:expr, $text:expr, $int:expr, $($m:ident $t:ty),*) => {$(
        conversion(stringify!($m), $text, $int, $n.$m().ok().map(|v| v.to_string()), <$t>::MIN.to_string(), <$t>::MAX.to_string())?;
    )*};
}

/// Checks everything that can be asked of a number with this text.
fn number(n: &Number, text: &str) -> Result<(), String> {
    if &**n != text {
        return Err(format!("{} has the text {:?}", model::clip(text), &**n));
    }
    let int = !text.contains(|c| ".eE".contains(c));
    if n.is_float() == int {
        return Err(format!("{}: is_float is {}", model::clip(text), n.is_float()));
    }
    if n.is_signed() != int {
        return Err(format!("{}: is_signed is {}", model::clip(text), n.is_signed()));
    }
    if n.is_unsigned() != (int && !text.starts_with('-')) {
        return Err(format!("{}: is_unsigned is {}", model::clip(text), n.is_unsigned()));
    }
    ints!(n, text, int, as_u8 u8, as_u16 u16, as_u32 u32, as_u64 u64, as_u128 u128, as_i8 i8, as_i16 i16, as_i32 i32, as_i64 i64, as_i128 i128);
    let f: f64 = text.parse().map_err(|_| format!("engine: {} is no float", text))?;
    if n.as_f64().ok().map(|x| x.to_bits()) != Some(f.to_bits()) {
        return Err(format!("as_f64 of {} gives {:?}", model::clip(text), n.as_f64()));
    }
    let f: f32 = text.parse().map_err(|_| format!("engine: {} is no float", text))?;
    if n.as_f32().ok().map(|x| x.to_bits()) != Some(f.to_bits()) {
        return Err(format!("as_f32 of {} gives {:?}", model::clip(text), n.as_f32()));
    }
    Ok(())
}

fn literal(text: &str, w: bool) -> Verdict {
    let lit = is_literal(text);
    let class = guard(|| match parse(text) {
        None if lit => Err(format!("{} is not parsed as a number", model::clip(text))),
        Some(n) if !lit => Err(format!("{} is parsed as the number {:?}", model::clip(text), n)),
        None => Ok(0),
        Some(n) => {
            number(&n, text)?;
            number(&n.clone(), text)?;
            Ok(hash_str(text))
        }
    })??;
    Ok(Obs { class, nontrivial: lit, sample: if w { Some(model::clip(text)) } else { None } })
}

// decimal arithmetic on texts
fn add_small(d: &str, delta: i32) -> String {
    // d is a non-negative integer, at least 10
    let mut v: Vec<i32> = d.bytes().map(|b| i32::from(b - b'0')).collect();
    let mut i = v.len() - 1;
    v[i] += delta;
    loop {
        if v[i] < 0 {
            v[i] += 10;
            i -= 1;
            v[i] -= 1;
        } else if v[i] > 9 {
            v[i] -= 10;
            if i == 0 {
                v.insert(0, 1);
                break;
            }
            i -= 1;
            v[i] += 1;
        } else {
            break;
        }
    }
    let s: String = v.iter().map(|x| (b'0' + *x as u8) as char).collect();
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".to_string() } else { t.to_string() }
}

fn double(d: &str) -> String {
    let mut out = vec![];
    let mut carry = 0;
    for b in d.bytes().rev() {
        let x = (b - b'0') * 2 + carry;
        out.push(b'0' + x % 10);
        carry = x / 10;
    }
    if carry > 0 {
        out.push(b'0' + carry);
    }
    out.reverse();
    String::from_utf8(out).unwrap_or_default()
}

fn landmarks() -> Vec<String> {
    let mut v = vec![];
    let mut p = "1".to_string();
    for _ in 0..132 {
        if p.len() > 1 {
            v.push(p.clone());
        }
        p = double(&p);
    }
    for k in 1..45 {
        v.push(format!("1{}", "0".repeat(k)));
    }
    v
}

macro_rules! native {
    ($n:expr, $t:ty, $back:ident) => {{
        let n: $t = $n;
        let v = Number::from(n);
        if v.$back().ok() != Some(n) {
            return Err(format!("{} as {} converts back to {:?}", n, stringify!($t), v.$back()));
        }
        native_text(&v, &n.to_string())?;
        Ok(hash_str(&n.to_string()))
    }};
}

/// A number made from a native value reads the same as its text.
fn native_text(v: &Number, text: &str) -> Result<(), String> {
    number(v, text)?;
    match parse(text) {
        Some(p) => {
            if p != *v || *v != p || !v.eq(&p) {
                return Err(format!("the number made from {} differs from the parsed one", text));
            }
            if model::hash(&p) != model::hash(v) {
                return Err(format!("the number made from {} hashes unlike the parsed one", text));
            }
            Ok(())
        }
        None => Err(format!("{} made from a native value is not parsed", text)),
    }
}

fn native_int(kind: usize, bits: u128) -> Result<u64, String> {
    match kind {
        0 => native!(bits as u8, u8, as_u8),
        1 => native!(bits as i8, i8, as_i8),
        2 => native!(bits as u16, u16, as_u16),
        3 => native!(bits as i16, i16, as_i16),
        4 => native!(bits as u32, u32, as_u32),
        5 => native!(bits as i32, i32, as_i32),
        6 => native!(bits as u64, u64, as_u64),
        7 => native!(bits as i64, i64, as_i64),
        8 => native!(bits, u128, as_u128),
        _ => native!(bits as i128, i128, as_i128),
    }
}

fn native_f64(f: f64) -> Result<u64, String> {
    let n = Number::from(f);
    if n.as_f64().ok().map(f64::to_bits) != Some(f.to_bits()) {
        return Err(format!("{:?} converts back to {:?}", f, n.as_f64()));
    }
    native_text(&n, &f.to_string())?;
    Ok(f.to_bits())
}

fn native_f32(f: f32) -> Result<u64, String> {
    let n = Number::from(f);
    if n.as_f32().ok().map(f32::to_bits) != Some(f.to_bits()) {
        return Err(format!("{:?} converts back to {:?}", f, n.as_f32()));
    }
    native_text(&n, &f.to_string())?;
    Ok(u64::from(f.to_bits()))
}

pub const C08: Prop = Prop {
    id: "C08",
    rule: "an execution makes a literal or a native value and compares its text, its classification and every conversion with values computed from the digits; non-trivial: the text is a number literal",
    assumptions: &["the float parser and the printer of the Rust standard library"],
    families: |t| {
        let marks = landmarks();
        let sizes = ramp::sizes(true);
        vec![
            Family::new("words", "every string of at most 6 (thorough: 7) of 9 characters", move |ch, w| {
                let s = gen::word(ch, &["0", "1", "9", ".", "e", "E", "-", "+", "7"], if t { 7 } else { 6 });
                ch.note(|| s.clone());
                literal(&s, w)
            }),
            Family::new("landmarks", &format!("{} powers of two and ten, 3 less to 3 more, 3 signs, 3 paddings, 7 endings", marks.len()), move |ch, w| {
                let base = ch.pick(&marks).clone();
                let d = add_small(&base, ch.range(0, 6) as i32 - 3);
                let sign = *ch.pick(&["", "-", "+"]);
                let pad = *ch.pick(&["", "0", "000000000000000000000000000000000000000000"]);
                let end = *ch.pick(&["", ".", ".0", "e0", ".5", "E+1", "e-1"]);
                let s = format!("{}{}{}{}", sign, pad, d, end);
                ch.note(|| s.clone());
                literal(&s, w)
            }),
            Family::new("exponents", "every exponent from -400 to 400 in 3 forms after 8 mantissas", |ch, w| {
                let m = *ch.pick(&["1", "9.999999999999999999", "-0.5", ".1", "4.9406564584124654417656879286822", "17976931348623157", "3.4028235677973366", "0"]);
                let e = ch.range(0, 800) as i64 - 400;
                let s = match ch.choose(3) {
                    0 => format!("{}e{}", m, e),
                    1 => format!("{}E{:+}", m, e),
                    _ => format!("{}e{}{:05}", m, if e < 0 { "-" } else { "" }, e.abs()),
                };
                ch.note(|| s.clone());
                literal(&s, w)
            }),
            Family::new("small integers", "every value of the 8 and 16 bit integer types", |ch, _| {
                let kind = ch.choose(4);
                let bits = if kind < 2 { ch.choose(256) } else { ch.choose(256) * 256 + ch.choose(256) };
                ch.note(|| format!("kind {} bits {}", kind, bits));
                obs(guard(|| native_int(kind, bits as u128))??, true)
            }),
            Family::new("integers", "the 32, 64 and 128 bit values within 3 of each power of two, of both signs", |ch, _| {
                let kind = ch.range(4, 9);
                let p = ch.choose(129);
                let base = if p == 128 { 0u128 } else { 1u128 << p };
                let bits = base.wrapping_add(ch.range(0, 6) as u128).wrapping_sub(3);
                let bits = if ch.flag() { bits.wrapping_neg() } else { bits };
                ch.note(|| format!("kind {} bits {}", kind, bits));
                obs(guard(|| native_int(kind, bits))??, true)
            }),
            Family::new("doubles", "every sign and exponent of f64 with 13 mantissas, not infinite", |ch, _| {
                let top = ch.choose(4096) as u64;
                let m = ch.choose(13);
                let mant = match m {
                    0 => 0,
                    1 => 1,
                    2 => (1 << 52) - 1,
                    3 => 1 << 51,
                    4 => 0x5_5555_5555_5555,
                    5 => (1 << 51) - 1,
                    6 => 0x4_0000_0000_0001,
                    _ => 1u64 << (m * 4),
                };
                let f = f64::from_bits(top << 52 | mant);
                ch.note(|| format!("{:?}", f));
                if !f.is_finite() {
                    return obs(0, false);
                }
                obs(guard(|| native_f64(f))??, true)
            }),
            Family::new("singles", "every f32 made from 14 (thorough: 20) leading bits and 5 tails, not infinite", move |ch, _| {
                let top = if t { ch.choose(1024) * 1024 + ch.choose(1024) } else { ch.choose(128) * 128 + ch.choose(128) } as u32;
                let rest = if t { 12 } else { 18 };
                let tail = *ch.pick(&[0u32, 1, (1 << rest) - 1, 1 << (rest - 1), 0x55555555 & ((1 << rest) - 1)]);
                let f = f32::from_bits(top << rest | tail);
                ch.note(|| format!("{:?}", f));
                if !f.is_finite() {
                    return obs(0, false);
                }
                obs(guard(|| native_f32(f))??, true)
            }),
            Family::new("decimals", "every decimal of at most 2 digits before and 3 after the point, as a double and as a single", |ch, _| {
                let d = format!("{}{}.{}", if ch.flag() { "-" } else { "" }, ch.choose(100), format!("{:03}", ch.choose(1000)));
                ch.note(|| d.clone());
                let f: f64 = d.parse().map_err(|_| "engine".to_string())?;
                let g: f32 = d.parse().map_err(|_| "engine".to_string())?;
                guard(|| native_f32(g))??;
                obs(guard(|| native_f64(f))??, true)
            }),
            Family::new("zeros", "3 signs, 0 to 45 and up to 1025 leading zeros, 6 whole parts, no fraction, zeros and zeros before a digit, 7 exponents", |ch, w| {
                const MORE: &[usize] = &[0, 1, 2, 3, 8, 15, 16, 17, 18, 19, 20, 21, 30, 38, 39, 40, 64, 100, 257, 1025];
                let sign = *ch.pick(&["", "-", "+"]);
                let n = ch.choose(46 + 7);
                let n = if n < 46 { n } else { [63, 64, 65, 128, 256, 400, 1025][n - 46] };
                let whole = *ch.pick(&["", "0", "1", "255", "256", "18446744073709551615"]);
                let frac = match ch.choose(3) {
                    0 => String::new(),
                    1 => format!(".{}", "0".repeat(*ch.pick(MORE))),
                    _ => format!(".{}1", "0".repeat(*ch.pick(MORE))),
                };
                let s = format!("{}{}{}{}{}", sign, "0".repeat(n), whole, frac, ch.pick(&["", "e0", "e-0", "E+00", "e1", "e-1", "e30"]));
                ch.note(|| model::clip(&s));
                literal(&s, w)
            }),
            Family::new("growth", &format!("6 kinds of literal of {} lengths", sizes.len()), move |ch, w| {
                let n = *ch.pick(&sizes);
                let s = match ch.choose(6) {
                    0 => format!("{}1", "0".repeat(n)),
                    1 => format!("-{}", "9".repeat(n.max(1))),
                    2 => format!("1.{}", "3".repeat(n)),
                    3 => format!("0.{}1e{}", "0".repeat(n), n),
                    4 => format!("1{}e-{}", "0".repeat(n), n),
                    _ => format!("1e{}", "9".repeat(n.max(1))),
                };
                ch.note(|| model::clip(&s));
                literal(&s, w)
            }),
        ]
    },
};

// ---------------------------------------------------------------- equality

/// The literal's value times 10^scale as an integer text; `None` when it is not an integer then.
fn scaled(s: &str, scale: i64) -> Option<String> {
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (m, e) = match r.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&r[..i], r[i + 1..].parse::<i64>().ok()?),
        None => (r, 0),
    };
    let (whole, frac) = match m.find('.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, ""),
    };
    let mut digits = format!("{}{}", whole, frac);
    let mut shift = scale + e - frac.len() as i64;
    while shift > 0 {
        digits.push('0');
        shift -= 1;
        if digits.len() > 5000 {
            return None;
        }
    }
    while shift < 0 {
        match digits.pop() {
            Some('0') | None => {}
            Some(_) => return None,
        }
        shift += 1;
    }
    Some(plain_int(&format!("{}{}", if neg { "-" } else { "" }, digits)))
}

struct Num {
    text: String,
    value: String,
    n: Number<'static>,
}

fn made(texts: Vec<String>, scale: i64) -> Arc<Vec<Num>> {
    let mut out = vec![];
    for t in texts {
        let value = match scaled(&t, scale) {
            Some(v) => v,
            None => panic!("engine: scale too small for {}", t),
        };
        let leaked: &'static str = Box::leak(t.clone().into_boxed_str());
        // a text that is not parsed is C08's business
        if let Ok(Some(n)) = guard(|| parse(leaked)) {
            out.push(Num { text: t, value, n });
        }
    }
    Arc::new(out)
}

fn pair(a: &Num, b: &Num, w: bool) -> Verdict {
    let same = a.value == b.value;
    let got = guard(|| a.n == b.n)?;
    if got != same {
        return Err(format!("{} == {} is {}", model::clip(&a.text), model::clip(&b.text), got));
    }
    if guard(|| a.n != b.n)? == same {
        return Err(format!("{} != {} is {}", model::clip(&a.text), model::clip(&b.text), same));
    }
    let ha = guard(|| model::hash(&a.n))?;
    if same {
        let hb = guard(|| model::hash(&b.n))?;
        if ha != hb {
            return Err(format!("{} and {} are equal with different hashes", model::clip(&a.text), model::clip(&b.text)));
        }
    }
    let different = a.text != b.text;
    Ok(Obs { class: ha, nontrivial: same && different, sample: if w && same && different { Some(format!("{} == {}", model::clip(&a.text), model::clip(&b.text))) } else { None } })
}

fn short_literals(max: usize, alphabet: &[u8]) -> Vec<String> {
    let mut out = vec![];
    let mut level = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &level {
            for c in alphabet {
                let mut t = s.clone();
                t.push(*c as char);
                if is_literal(&t) {
                    out.push(t.clone());
                }
                next.push(t);
            }
        }
        level = next;
    }
    out
}

fn long_literals() -> Vec<String> {
    let mut v = vec![];
    for n in [0usize, 1, 2, 8, 15, 16, 17, 18, 19, 20, 31, 37, 38, 39, 40, 63, 64, 65, 99, 100, 101, 255, 256, 257, 308, 309, 310, 400] {
        let z = "0".repeat(n);
        v.push(format!("1{}", z));
        v.push(format!("{}1", z));
        v.push(format!("-1{}", z));
        v.push(format!("1e{}", n));
        v.push(format!("1E+{}", n));
        v.push(format!("0.1e{}", n + 1));
        v.push(format!("10e{}", n as i64 - 1));
        v.push(format!("1{}e-{}", z, n));
        v.push(format!("1e-{}", n));
        v.push(format!("-1e-{}", n));
        v.push(format!("0.{}1", z));
        v.push(format!(".{}1", z));
        v.push(format!("0.{}10", z));
        v.push(format!("1.{}", z));
        v.push(format!("1.{}1", z));
        v.push(format!("0.{}", z));
        v.push(format!("-0e{}", n));
        v.push(format!("0e{}{}", z, n));
        v.push(format!("1e{}7", z));
        v.push(format!("{}7.50", z));
        v.push("7".repeat(n + 1));
        v.push(format!("{}.0", "7".repeat(n + 1)));
        v.push(format!("{}8", "7".repeat(n)));
    }
    v
}

/// The sum of two whole numbers of any size, written out: a sign only before negative ones, no
/// needless zeros.
pub fn plus(a: &str, b: &str) -> String {
    fn parts(s: &str) -> (bool, Vec<u8>) {
        let (neg, r) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        (neg, r.trim_start_matches('0').bytes().rev().map(|c| c - b'0').collect())
    }
    let (na, a) = parts(a);
    let (nb, b) = parts(b);
    // the larger in magnitude first
    let less = (a.len(), a.iter().rev().collect::<Vec<_>>()) < (b.len(), b.iter().rev().collect::<Vec<_>>());
    let (neg, x, y) = if less { (nb, &b, &a) } else { (na, &a, &b) };
    let mut out = String::new();
    let mut carry = 0i8;
    for i in 0..x.len() {
        let v = *y.get(i).unwrap_or(&0) as i8;
        let d = x[i] as i8 + carry + if na == nb { v } else { -v };
        carry = if d > 9 { 1 } else if d < 0 { -1 } else { 0 };
        out.insert(0, (b'0' + (d + 10) as u8 % 10) as char);
    }
    if carry == 1 {
        out.insert(0, '1');
    }
    let out = out.trim_start_matches('0');
    match out {
        "" => "0".to_string(),
        _ => format!("{}{}", if neg { "-" } else { "" }, out),
    }
}

/// The value of a literal: its digits without zeros at either end, and the place of the last.
pub fn worth(t: &str) -> String {
    let (neg, r) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t.strip_prefix('+').unwrap_or(t)),
    };
    let (m, e) = match r.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&r[..i], &r[i + 1..]),
        None => (r, "0"),
    };
    let (whole, frac) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{}{}", whole, frac);
    let digits = digits.trim_start_matches('0');
    let kept = digits.trim_end_matches('0');
    if kept.is_empty() {
        return "0".to_string();
    }
    let place = (digits.len() - kept.len()) as i64 - frac.len() as i64;
    format!("{}{}e{}", if neg { "-" } else { "" }, kept, plus(e, &place.to_string()))
}

/// Literals with exponents near the bounds of the integer types and near powers of ten. The first
/// of each pool has the bound itself.
fn giants() -> &'static [Vec<&'static str>] {
    let mut bounds: Vec<String> = [7u32, 8, 15, 16, 31, 32, 53, 63, 64].iter().map(|b| (1u128 << b).to_string()).collect();
    bounds.extend([(1u128 << 127).to_string(), u128::MAX.to_string()]);
    for n in [1usize, 2, 3, 9, 10, 16, 17, 18, 19, 20, 21, 37, 38, 39, 40, 41, 60, 76, 77, 78, 100] {
        bounds.push(format!("1{}", "0".repeat(n)));
        bounds.push("7".repeat(n));
    }
    let zeros = "0".repeat(40);
    let mut out = vec![];
    for b in &bounds {
        let mut pool = vec![];
        for neg in [false, true] {
            let base = if neg { format!("-{}", b) } else { b.clone() };
            for (m, k) in [("1", 0), ("10", -1), ("100", -2), ("0.1", 1), (".01", 2), ("-1", 0), ("+1.0", 0), ("11", 0), ("1.1", 1), ("0", 0), ("0.50", 0), ("5", -1)] {
                for d in -2i64..=2 {
                    pool.push(format!("{}e{}", m, plus(&base, &(k + d).to_string())));
                }
            }
            pool.push(format!("1{}e{}", zeros, plus(&base, "-40")));
            pool.push(format!("0.{}1e{}", zeros, plus(&base, "41")));
            // other spellings of the exponent
            let bare = base.trim_start_matches('-');
            pool.push(format!("1E{}0{}", if neg { "-" } else { "+" }, bare));
            pool.push(format!("1e{}{}{}", if neg { "-" } else { "" }, zeros, bare));
        }
        out.push(pool.into_iter().map(|t| &*Box::leak(t.into_boxed_str())).collect());
    }
    Box::leak(out.into_boxed_slice())
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "an execution takes two numbers and compares their equality and, when equal, their hashes with exact arithmetic on the texts they come from; non-trivial: equal values written differently",
    assumptions: &[],
    families: |t| {
        let short = made(short_literals(if t { 5 } else { 4 }, if t { b"0123.e-" } else { b"0125.e-+E" }), 1100);
        let long = made(long_literals(), 1100);
        let mut natives: Vec<(Number<'static>, String)> = vec![];
        macro_rules! nat {
            ($($v:expr),* $(,)?) => { $( if let Ok(n) = guard(|| Number::from($v)) { natives.push((n, $v.to_string())); } )* };
        }
        nat!(0u8, 1u8, 255u8, 0i8, -1i8, 1i8, -128i8, 127i8, 10u16, 65535u16, -32768i16, 100u32, u32::MAX, i32::MIN, -10i32, u64::MAX, i64::MIN, i64::MAX, 0i64, u128::MAX, i128::MIN, i128::MAX,
            0f64, -0f64, 1f64, -1f64, 0.5f64, -0.5f64, 0.1f64, 1e10f64, 1e21f64, 1e-7f64, 1e100f64, 1e-100f64, 255f64, 1.5f64, 0f32, -0f32, 0.5f32, 0.1f32, 1e10f32, -128f32, 65535f32, 1e-5f32);
        let mut nums: Vec<Num> = vec![];
        for (n, text) in natives {
            if let Some(value) = scaled(&text, 1100) {
                nums.push(Num { text: format!("{} (native)", text), value, n });
            }
        }
        let extra: Vec<String> = ["0", "-0", "1", "1.0", "-1", "10", "1e1", "255", "-128", "127", "65535", "0.5", ".5", "5e-1", "-0.5", "0.1", "1e-1", "1e10", "10000000000", "1e21", "1e-7", "1e100", "1e-100", "1.5",
            "18446744073709551615", "-9223372036854775808", "9223372036854775807", "340282366920938463463374607431768211455", "-170141183460469231731687303715884105728", "170141183460469231731687303715884105727", "4294967295", "-2147483648", "-32768", "100", "-10", "1e-5", "0.00001"]
            .iter().map(|s| s.to_string()).collect();
        for n in made(extra, 1100).iter() {
            nums.push(Num { text: n.text.clone(), value: n.value.clone(), n: n.n.clone() });
        }
        let nums = Arc::new(nums);
        let giants = giants();
        vec![
            Family::new("short", &format!("all pairs of the {} literals of at most {} characters", short.len(), if t { 5 } else { 4 }), move |ch, w| {
                let a = ch.choose(short.len());
                let b = ch.choose(short.len());
                ch.note(|| format!("{} {}", short[a].text, short[b].text));
                pair(&short[a], &short[b], w)
            }),
            Family::new("long", &format!("all pairs of {} literals with up to 400 zeros", long.len()), move |ch, w| {
                let a = ch.choose(long.len());
                let b = ch.choose(long.len());
                ch.note(|| format!("{} {}", long[a].text, long[b].text));
                pair(&long[a], &long[b], w)
            }),
            Family::new("native", &format!("all pairs of {} native and parsed numbers", nums.len()), move |ch, w| {
                let a = ch.choose(nums.len());
                let b = ch.choose(nums.len());
                ch.note(|| format!("{} {}", nums[a].text, nums[b].text));
                pair(&nums[a], &nums[b], w)
            }),
            Family::new("far exponents", &format!("all pairs of literals among the {} with exponents around each of {} bounds, and with the first of every other", giants[0].len(), giants.len()), move |ch, w| {
                let p = ch.choose(giants.len());
                let a = *ch.pick(&giants[p]);
                let n = ch.choose(giants[p].len() + giants.len());
                let b = match giants[p].get(n) {
                    Some(b) => *b,
                    None => giants[n - giants[p].len()][2],
                };
                ch.note(|| format!("{} {}", a, b));
                let num = |t: &'static str| -> Result<Num, String> {
                    let n = guard(|| parse(t))?.ok_or_else(|| format!("{} is not parsed", t))?;
                    Ok(Num { text: t.to_string(), value: worth(t), n })
                };
                pair(&num(a)?, &num(b)?, w)
            }),
            Family::new("digits", "numbers of 49 sizes up to 65537 digits, and the same with one digit changed, added or taken, with the point in 4 places, 3 exponents and signs", |ch, w| {
                let (a, b) = crate::gen::alike_numbers(ch, 65537);
                ch.note(|| format!("{} {}", model::clip(&a), model::clip(&b)));
                let one = |t: &str| guard(|| parse(t).map(|n| fc::AsOwned::as_owned(&n)))?.ok_or_else(|| format!("{} is not parsed", model::clip(t)));
                let (x, y) = (Num { value: worth(&a), n: one(&a)?, text: a }, Num { value: worth(&b), n: one(&b)?, text: b });
                pair(&x, &y, w)
            }),
            Family::new("expressions", "all pairs of 40 literals, compared inside tuples, objects and documents", |ch, w| {
                const L: &[&str] = &["0", "-0", "0.0", "1", "+1", "1.0", "1.", "10e-1", "01", "-1", "-1.0", "10", "1e1", "1E+1", "100", "1e2", ".5", "0.5", "0.50", "5e-1", "-.5", "-0.5", "12", "1.2", "1.2e1", "0.12e2", "21", "1.02", "1.020", "2", "2e0", "20", "3e400", "3e401", "30e400", "1e-9", "0.000000001", "1e-8", "1e9", "1000000000"];
                let a = *ch.pick(L);
                let b = *ch.pick(L);
                let k = ch.choose(3);
                ch.note(|| format!("{} {}", a, b));
                let same = scaled(a, 1100) == scaled(b, 1100);
                let got = guard(|| match k {
                    0 => Expression::parse(&format!("[{}]", a)).ok().map(|x| Expression::parse(&format!("[{}]", b)).map_or(false, |y| x == y)),
                    1 => Expression::parse(&format!("{{k={}}}", a)).ok().map(|x| Expression::parse(&format!("{{k={}}}", b)).map_or(false, |y| x == y)),
                    _ => fc::parse_str(&format!("b {{\n a = {}\n}}\n", a)).ok().map(|x| fc::parse_str(&format!("b {{\n a = {}\n}}\n", b)).map_or(false, |y| x == y)),
                })?;
                if got != Some(same) {
                    return Err(format!("{} and {} in place {}: equality is {:?}", a, b, k, got));
                }
                Ok(Obs { class: hash_str(a) ^ u64::from(same), nontrivial: same && a != b, sample: if w { Some(format!("{} {}", a, b)) } else { None } })
            }),
        ]
    },
};
