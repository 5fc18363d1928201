//! C17: labels and keys compare and hash as their text.
use crate::explore::*;
use crate::model::hash;
use crate::{gen, ramp, Prop};
use fc::parser::block::BlockLabel;
use fc::parser::object::ObjectElementIdentifier;
use fc::value::MapValues;
use fc::KeyValuePairs;
use ferrous_chloride as fc;
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::Hash;

pub trait Pairs {
    type K;
}
impl<K: Hash + Eq, V> Pairs for KeyValuePairs<K, V> {
    type K = K;
}
/// The key of the maps of the older front-end (its name is not public).
pub type Key<'a> = <MapValues<'a> as Pairs>::K;

const FORMS: usize = 4;

fn cow(s: &str, owned: bool) -> Cow<'_, str> {
    if owned {
        Cow::Owned(s.to_string())
    } else {
        Cow::Borrowed(s)
    }
}

fn label(s: &str, form: usize) -> BlockLabel<'_> {
    match form {
        0 => BlockLabel::Identifier(cow(s, false)),
        1 => BlockLabel::Identifier(cow(s, true)),
        2 => BlockLabel::StringLiteral(s.to_string()),
        _ => BlockLabel::from(s),
    }
}

pub fn key(s: &str, form: usize) -> Key<'_> {
    match form {
        0 => Key::new_identifier(s),
        1 => Key::new_string_owned(s.to_string()),
        2 => Key::new_identifier_owned(s.to_string()),
        3 => Key::new_string(s),
        4 => Key::from(s),
        _ => Key::from(s.to_string()),
    }
}

fn want(what: &str, ok: bool, a: &str, b: &str) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("{} is wrong for {:?} and {:?}", what, crate::model::clip(a), crate::model::clip(b)))
    }
}

/// What holds for one text.
fn one(s: &str) -> Result<(), String> {
    let h = hash(s);
    for f in 0..FORMS {
        let l = label(s, f);
        want("as_str of a label", l.as_str() == s, s, s)?;
        want("as_cow of a label", l.as_cow() == s, s, s)?;
        want("Borrow of a label", Borrow::<str>::borrow(&l) == s, s, s)?;
        want("the hash of a label", hash(&l) == h, s, s)?;
        want("a label's equality with itself", l == l, s, s)?;
        want("a label's equality with its clone", l == l.clone() && hash(&l.clone()) == h, s, s)?;
        let quoted = f == 2;
        want("the form of a label", matches!(l, BlockLabel::StringLiteral(_)) == quoted, s, s)?;
    }
    for f in 0..6 {
        let k = key(s, f);
        want("Deref of a key", &*k == s, s, s)?;
        want("Borrow of a key", Borrow::<str>::borrow(&k) == s, s, s)?;
        want("the hash of a key", hash(&k) == h, s, s)?;
        want("a key's equality with itself", k == k, s, s)?;
        want("a key's clone", k == k.clone() && hash(&k.clone()) == h, s, s)?;
        want("a key's owned copy", k == k.as_owned() && hash(&k.as_owned()) == h, s, s)?;
        want("a key's text", k.unwrap() == s, s, s)?;
    }
    for owned in [false, true] {
        let i = ObjectElementIdentifier::Identifier(cow(s, owned));
        let e = ObjectElementIdentifier::Expression(cow(s, owned));
        want("the hash of an identifier key", hash(&i) == h, s, s)?;
        want("the hash of an expression key", hash(&e) == h, s, s)?;
        want("Borrow of an identifier key", Borrow::<str>::borrow(&i) == s, s, s)?;
        want("Borrow of an expression key", Borrow::<str>::borrow(&e) == s, s, s)?;
        want("the text of an identifier key", i.as_str() == s, s, s)?;
        want("equality of an identifier and an expression key", i != e && e != i, s, s)?;
        want("equality of object keys with themselves", i == i.clone() && e == e.clone(), s, s)?;
    }
    want("a key made from a text", ObjectElementIdentifier::from(s) == ObjectElementIdentifier::Identifier(Cow::Borrowed(s)), s, s)
}

/// What holds for two texts.
fn two(a: &str, b: &str) -> Result<(), String> {
    let same = a == b;
    for f in 0..FORMS {
        let l = label(a, f);
        for g in 0..FORMS {
            let m = label(b, g);
            want("equality of labels", (l == m) == same && (l != m) == !same && (m == l) == same, a, b)?;
        }
        want("equality of a label and a text", (l == b) == same && (l == b.to_string()) == same && (l != b) != same, a, b)?;
    }
    for f in 0..4 {
        let k = key(a, f);
        for g in 0..4 {
            let m = key(b, g);
            want("equality of keys", (k == m) == same && (k != m) == !same && (m == k) == same, a, b)?;
        }
    }
    let (i, e) = (ObjectElementIdentifier::Identifier(Cow::Borrowed(a)), ObjectElementIdentifier::Expression(Cow::Borrowed(a)));
    let (j, d) = (ObjectElementIdentifier::Identifier(cow(b, true)), ObjectElementIdentifier::Expression(cow(b, true)));
    want("equality of identifier keys", (i == j) == same, a, b)?;
    want("equality of expression keys", (e == d) == same, a, b)?;
    want("equality of an identifier and an expression key", i != d && e != j, a, b)?;
    want("equality of an identifier key and a text", (i == b) == same && (i == b.to_string()) == same, a, b)?;
    want("equality of an expression key and a text", e != b && e != b.to_string(), a, b)
}

const LETTERS: &[&str] = &["a", "A", "é", "-", " ", "\""];
const SPECIAL: &[&str] = &["", "null", "true", "1", "1.0", "\"a\"", "(a)", "a b", "\u{0}", "\u{feff}a", "e\u{301}", "\u{e9}", "ﬁ", "fi", "ß", "SS", "ı", "İ", "i", "I", "😀", "\n", "\\n", "\r\n"];

fn words(max: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for l in LETTERS {
                out.push(format!("{}{}", out[i], l));
            }
        }
        from = to;
    }
    out.extend(SPECIAL.iter().map(|s| s.to_string()));
    out
}

fn c17(t: bool) -> Vec<Family> {
    let ws = words(if t { 5 } else { 4 });
    let n = ws.len();
    let mut fams = vec![Family::new(
        "pairs",
        &format!("all pairs of {} texts: words of up to {} of 6 letters and 24 special texts; quoted and bare, owned and borrowed", n, if t { 5 } else { 4 }),
        move |ch, w| {
            let a = &ws[ch.choose(n)];
            one(a)?;
            let mut same = 0;
            for b in &ws {
                two(a, b)?;
                same += (a == b) as u64;
            }
            obs_with(hash_str(a), same > 0, w, || format!("{:?} with each text", a))
        },
    )];
    fams.push(Family::new("every scalar", "texts made of every Unicode scalar alone, doubled, and after and before a letter, with the next scalar and both cases", move |ch, w| {
        let block = ch.choose(272) * 16 + ch.choose(16);
        let mut prev = String::from("a");
        for i in 0..256 {
            let c = super::total::scalar(block * 256 + i);
            let s = c.to_string();
            one(&s)?;
            two(&s, &prev)?;
            let lower: String = c.to_lowercase().collect();
            let upper: String = c.to_uppercase().collect();
            for o in [lower, upper, format!("{}{}", c, c), format!("a{}", c), format!("{}a", c), format!("{:?}", s)] {
                two(&s, &o)?;
                two(&o, &s)?;
            }
            prev = s;
        }
        obs_with(block as u64, true, w, || format!("256 scalars from {:?}", super::total::scalar(block * 256)))
    }));
    let keys_max = if t { 5 } else { 4 };
    fams.push(Family::new("maps", &format!("all maps of up to {} keys from 5 texts in 4 forms, asked for every text in every form", keys_max), move |ch, w| {
        const TEXTS: &[&str] = &["", "a", "b", "a ", "é"];
        let n = ch.range(0, keys_max);
        let mut model: BTreeMap<&str, usize> = BTreeMap::new();
        let mut labels: HashMap<BlockLabel, usize> = HashMap::new();
        let mut keys: HashMap<Key, usize> = HashMap::new();
        let mut set: HashSet<BlockLabel> = HashSet::new();
        let mut pairs: KeyValuePairs<Key, usize> = KeyValuePairs::Merged(HashMap::new());
        let mut list: KeyValuePairs<Key, usize> = KeyValuePairs::Unmerged(vec![]);
        let mut first: BTreeMap<&str, usize> = BTreeMap::new();
        let mut says = vec![];
        for i in 0..n {
            let s = *ch.pick(TEXTS);
            let f = ch.choose(FORMS);
            says.push((s, f));
            let before = model.insert(s, i);
            first.entry(s).or_insert(i);
            if labels.insert(label(s, f), i) != before {
                return Err(format!("inserting label {:?} (form {}) into a map after {:?}", s, f, says));
            }
            if keys.insert(key(s, f), i) != before {
                return Err(format!("inserting key {:?} (form {}) into a map after {:?}", s, f, says));
            }
            if set.insert(label(s, f)) != before.is_none() {
                return Err(format!("inserting label {:?} (form {}) into a set after {:?}", s, f, says));
            }
            pairs.extend(std::iter::once((key(s, f), i)));
            list.extend(std::iter::once((key(s, f), i)));
        }
        ch.note(|| format!("{:?}", says));
        if labels.len() != model.len() || keys.len() != model.len() || set.len() != model.len() || pairs.len() != model.len() {
            return Err(format!("a map of {:?} has {} labels, {} keys, {} labels in the set, {} pairs", says, labels.len(), keys.len(), set.len(), pairs.len()));
        }
        for s in TEXTS.iter().chain(&["c", "A", "e\u{301}"]) {
            let e = model.get(s);
            let mut ok = labels.get(*s) == e && keys.get(*s) == e && set.contains(*s) == e.is_some() && pairs.get_single(*s) == e;
            ok &= list.get_single(*s) == first.get(s);
            for f in 0..FORMS {
                ok &= labels.get(&label(s, f)) == e && set.contains(&label(s, f)) == e.is_some();
                ok &= keys.get(&key(s, f)) == e && pairs.get_single(&key(s, f)) == e && list.get_single(&key(s, f)) == first.get(s);
            }
            if !ok {
                return Err(format!("looking up {:?} after inserting {:?}", s, says));
            }
        }
        obs_with(hash_str(&format!("{:?}", model)), model.len() < n, w, || format!("{:?}", says))
    }));
    fams.push(Family::new("lengths", &format!("texts of up to {} characters that differ in one place, or in length", 65537), move |ch, w| {
        let mut sizes = ramp::sizes(t);
        if !t {
            sizes.extend(ramp::large(false));
        }
        let n = *ch.pick(&sizes);
        let c = *ch.pick(&['a', 'é', '😀']);
        let a: Vec<char> = (0..n).map(|i| if i % 7 == 3 { 'x' } else { c }).collect();
        let s: String = a.iter().collect();
        one(&s)?;
        two(&s, &s.clone())?;
        let mut at = vec![0, n / 2, n.saturating_sub(1), 7, 8, 15, 16, 31, 63, 64, 127, 255];
        at.retain(|i| *i < n);
        for i in at {
            let mut b = a.clone();
            b[i] = 'y';
            let b: String = b.into_iter().collect();
            two(&s, &b)?;
            two(&b, &s)?;
        }
        two(&s, &format!("{}a", s))?;
        two(&s, &format!("a{}", s))?;
        two(&format!("{} ", s), &s)?;
        obs_with(n as u64 * 4 + c.len_utf8() as u64 % 4, n > 0, w, || format!("{} x {:?}", n, c))
    }));
    fams.push(Family::new("parsed", "all names of up to 4 of 5 characters and special texts, parsed as quoted and as bare labels and keys", move |ch, w| {
        let s = if ch.flag() {
            format!("a{}", gen::word(ch, &["a", "-", "é", "1", "_"], 4))
        } else {
            ch.pick(&["null", "true", "false", "a", "_", "resource", "ﬁ", "e\u{301}", "i\u{307}"]).to_string()
        };
        ch.note(|| s.clone());
        let text = format!("{0} {0} \"{0}\" {0} {{}}\n", s);
        let b = fc::parse_str(&text).map_err(|e| format!("{:?}: {}", text, e))?;
        let blk = b.into_iter().next().ok_or("nothing parsed")?.unwrap_block();
        if blk.labels.len() != 3 {
            return Err(format!("{:?} has {} labels", text, blk.labels.len()));
        }
        for l in &blk.labels {
            if *l != blk.labels[0] || hash(l) != hash(s.as_str()) || l.as_str() != s || *l != s {
                return Err(format!("the label {:?} of {:?} differs from its text", l, text));
            }
        }
        let text = format!("\"{0}\" = 1\n{0} = 2\n", s);
        let m = fc::value::from_str(&text, None).map_err(|e| format!("{:?}: {}", text, e))?;
        let ks: Vec<&Key> = m.keys().collect();
        if ks.len() != 2 || ks[0] != ks[1] || hash(ks[0]) != hash(ks[1]) || hash(ks[0]) != hash(s.as_str()) || &**ks[0] != s.as_str() {
            return Err(format!("the keys {:?} of {:?} are not equal", ks, text));
        }
        if m.get(s.as_str()).map(|x| x.len()) != Some(2) {
            return Err(format!("looking up {:?} in {:?}", s, text));
        }
        let text = format!("{{ {0} = 1, \"{0}\" = 2, ({0}) = 3 }}", s);
        let text = if ["null", "true", "false"].contains(&s.as_str()) { text } else { format!("{{ {0} = 1, \"{0}\" = 2 }}", s) };
        match fc::parser::Expression::parse(&text) {
            Ok(fc::parser::Expression::Object(o)) => {
                for (i, (k, _)) in o.iter().enumerate() {
                    let spelled = [s.clone(), format!("\"{}\"", s), format!("({})", s)][i].clone();
                    if hash(k) != hash(spelled.as_str()) || (*k == s) != (i == 0) || *k == format!("\"{}\"", s) {
                        return Err(format!("the key {:?} of {:?}", k, text));
                    }
                    if i < 2 && k.as_str() != s {
                        return Err(format!("the key {:?} of {:?} reads {:?}", k, text, k.as_str()));
                    }
                }
            }
            other => return Err(format!("{:?} gave {:?}", text, other)),
        }
        obs_with(hash_str(&s), true, w, || s.clone())
    }));
    fams
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "labels and keys of the older front-end are equal exactly when their texts are and hash as their text; object keys hash as their text and equal a text exactly when they are identifiers of that text",
    assumptions: &["the hash maps and the default hasher of the standard library"],
    families: c17,
};
