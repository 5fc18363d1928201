//! What deserializing means: for a model document and a type, whether it has to succeed, and
//! whether a value is the right one. Written against serde's data model and the documented rules
//! of the library, not against its code.
use crate::model::*;
use crate::refparse;
use serde::de::{self, DeserializeOwned, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Debug;

/// Something of a document that is deserialized.
#[derive(Clone)]
pub enum Node<'a> {
    /// The value of an attribute, or part of one.
    E(&'a ME),
    /// All blocks of a type, none of which has labels.
    Blocks(Vec<&'a MBody>),
    /// Blocks of a type, some of which have labels.
    Labelled,
    /// A configuration file.
    Body(&'a MBody),
}

/// Whether deserializing has to succeed.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    Must,
    /// Both an error and the right value are fine.
    May,
    Fail,
}
use V::*;

impl V {
    pub fn and(self, o: V) -> V {
        match (self, o) {
            (Fail, _) | (_, Fail) => Fail,
            (May, _) | (_, May) => May,
            _ => Must,
        }
    }
    fn all(i: impl Iterator<Item = V>) -> V {
        i.fold(Must, V::and)
    }
    fn may(self) -> V {
        if self == Must {
            May
        } else {
            self
        }
    }
}

/// A type to deserialize into.
pub trait Target: Sized + DeserializeOwned + Debug {
    fn v(n: &Node) -> V;
    /// Whether this is a right value (asked only where the verdict is not `Fail`).
    fn m(&self, n: &Node) -> bool;
    /// For a field that is not there: whether that is fine, and whether this is its value.
    fn absent() -> bool {
        false
    }
    fn is_absent(&self) -> bool {
        false
    }
}

/// The text that a key of an object stands for.
pub fn key_text(k: &MK) -> String {
    match k {
        MK::Ident(s) => s.clone(),
        MK::Expr(s) => match refparse::expression(s) {
            Some(ME::Str(x)) => x,
            Some(ME::Num(x)) => x,
            Some(ME::Bool(b)) => b.to_string(),
            _ => s.clone(),
        },
    }
}

/// The entries of a map; `None` when a name is there twice.
pub struct Entries<'a> {
    /// In the order written.
    pub ordered: Vec<(String, Node<'a>)>,
    /// Block types, in any order.
    pub blocks: Vec<(String, Node<'a>)>,
}

impl<'a> Entries<'a> {
    pub fn get(&self, k: &str) -> Option<&Node<'a>> {
        self.ordered.iter().chain(&self.blocks).find(|e| e.0 == k).map(|e| &e.1)
    }
    pub fn all(&self) -> impl Iterator<Item = &(String, Node<'a>)> {
        self.ordered.iter().chain(&self.blocks)
    }
    pub fn len(&self) -> usize {
        self.ordered.len() + self.blocks.len()
    }
}

fn unique<'b>(i: impl Iterator<Item = &'b String>) -> bool {
    let mut seen = HashSet::new();
    let mut i = i;
    i.all(|k| seen.insert(k.clone()))
}

fn body_entries(b: &MBody) -> Option<Entries<'_>> {
    let mut e = Entries { ordered: vec![], blocks: vec![] };
    let mut at: HashMap<&str, usize> = HashMap::new();
    for x in b {
        match x {
            MEl::Attr(k, v) => e.ordered.push((k.clone(), Node::E(v))),
            MEl::Block(bl) => {
                let i = *at.entry(&bl.ty).or_insert_with(|| {
                    e.blocks.push((bl.ty.clone(), Node::Blocks(vec![])));
                    e.blocks.len() - 1
                });
                let n = &mut e.blocks[i].1;
                if !bl.labels.is_empty() {
                    *n = Node::Labelled;
                } else if let Node::Blocks(v) = n {
                    v.push(&bl.body);
                }
            }
        }
    }
    if unique(e.ordered.iter().chain(&e.blocks).map(|x| &x.0)) {
        Some(e)
    } else {
        None
    }
}

/// The map that a node is, if it is one: `Err` when it is one with a name twice.
pub fn entries<'a>(n: &Node<'a>) -> Option<Result<Entries<'a>, ()>> {
    match n {
        Node::E(ME::Object(o)) => {
            let ordered: Vec<_> = o.iter().map(|(k, v)| (key_text(k), Node::E(v))).collect();
            Some(if unique(ordered.iter().map(|x| &x.0)) { Ok(Entries { ordered, blocks: vec![] }) } else { Err(()) })
        }
        Node::Blocks(b) if b.len() == 1 => Some(body_entries(b[0]).ok_or(())),
        Node::Body(b) => Some(body_entries(b).ok_or(())),
        _ => None,
    }
}

/// The elements of a sequence, where one is asked for.
fn elements<'a>(n: &Node<'a>) -> Option<Vec<Node<'a>>> {
    match n {
        Node::E(ME::Tuple(t)) => Some(t.iter().map(Node::E).collect()),
        Node::Blocks(b) => Some(b.iter().map(|b| Node::Body(b)).collect()),
        _ => None,
    }
}

// ---------------------------------------------------------------- numbers

pub fn is_float(s: &str) -> bool {
    s.contains(|c| ".eE".contains(c))
}

/// The value of an integer literal; `None` when it is beyond 128 bits.
fn int(s: &str) -> Option<(bool, u128)> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    d.parse::<u128>().ok().map(|v| (neg && v > 0, v))
}

/// Whether the integer fits the 64 bits that serde's data model has here.
fn word(i: (bool, u128)) -> bool {
    if i.0 {
        i.1 <= 1 << 63
    } else {
        i.1 <= u64::MAX as u128
    }
}

/// Whether a number literal can be handed on at all.
pub fn representable(s: &str) -> bool {
    is_float(s) || int(s).map_or(false, word)
}

macro_rules! int_target {
    ($($t:ty)*) => {$(
        impl Target for $t {
            fn v(n: &Node) -> V {
                let s = match n {
                    Node::E(ME::Num(s)) if !is_float(s) => s,
                    _ => return Fail,
                };
                match int(s) {
                    None => Fail,
                    Some((neg, v)) => {
                        let fits = if neg {
                            let min = <$t>::MIN as i128;
                            v <= min.unsigned_abs()
                        } else {
                            v <= <$t>::MAX as u128
                        };
                        if !fits {
                            Fail
                        } else if word((neg, v)) && !(s.starts_with('-') && v == 0) {
                            Must
                        } else {
                            May
                        }
                    }
                }
            }
            fn m(&self, n: &Node) -> bool {
                match n {
                    Node::E(ME::Num(s)) => match int(s) {
                        Some((neg, v)) => {
                            let mine = self.to_string();
                            mine == if neg { format!("-{}", v) } else { v.to_string() }
                        }
                        None => false,
                    },
                    _ => false,
                }
            }
        }
    )*};
}
int_target!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

fn float_v(n: &Node) -> V {
    match n {
        Node::E(ME::Num(s)) => {
            if is_float(s) {
                // beyond the range there is no nearest float
                if s.parse::<f64>().map_or(false, |f| f.is_finite()) {
                    Must
                } else {
                    May
                }
            } else if int(s).map_or(false, word) {
                Must
            } else {
                May
            }
        }
        _ => Fail,
    }
}

impl Target for f64 {
    fn v(n: &Node) -> V {
        float_v(n)
    }
    fn m(&self, n: &Node) -> bool {
        match n {
            // the sign of an integer zero need not be kept
            Node::E(ME::Num(s)) => s.parse::<f64>().map_or(false, |f| {
                f.to_bits() == self.to_bits() || f == 0.0 && !is_float(s) && *self == 0.0
            }),
            _ => false,
        }
    }
}

impl Target for f32 {
    fn v(n: &Node) -> V {
        float_v(n)
    }
    fn m(&self, n: &Node) -> bool {
        match n {
            // through double precision or directly
            Node::E(ME::Num(s)) => {
                let direct = s.parse::<f32>().map_or(false, |f| f.to_bits() == self.to_bits());
                let double = s.parse::<f64>().map_or(false, |f| (f as f32).to_bits() == self.to_bits());
                direct || double || !is_float(s) && *self == 0.0 && s.parse::<f32>() == Ok(0.0)
            }
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- other scalars

impl Target for bool {
    fn v(n: &Node) -> V {
        match n {
            Node::E(ME::Bool(_)) => Must,
            _ => Fail,
        }
    }
    fn m(&self, n: &Node) -> bool {
        matches!(n, Node::E(ME::Bool(b)) if b == self)
    }
}

fn str_v(n: &Node) -> V {
    match n {
        Node::E(ME::Str(_)) => Must,
        _ => Fail,
    }
}
fn str_m(me: &str, n: &Node) -> bool {
    matches!(n, Node::E(ME::Str(s)) if s == me)
}

impl Target for String {
    fn v(n: &Node) -> V {
        str_v(n)
    }
    fn m(&self, n: &Node) -> bool {
        str_m(self, n)
    }
}
impl Target for Cow<'static, str> {
    fn v(n: &Node) -> V {
        str_v(n)
    }
    fn m(&self, n: &Node) -> bool {
        str_m(self, n)
    }
}
impl Target for Box<str> {
    fn v(n: &Node) -> V {
        str_v(n)
    }
    fn m(&self, n: &Node) -> bool {
        str_m(self, n)
    }
}
impl Target for char {
    fn v(n: &Node) -> V {
        match n {
            Node::E(ME::Str(s)) if s.chars().count() == 1 => Must,
            _ => Fail,
        }
    }
    fn m(&self, n: &Node) -> bool {
        str_m(&self.to_string(), n)
    }
}
impl Target for () {
    fn v(n: &Node) -> V {
        match n {
            Node::E(ME::Null) => Must,
            _ => Fail,
        }
    }
    fn m(&self, n: &Node) -> bool {
        matches!(n, Node::E(ME::Null))
    }
}
#[derive(Deserialize, Debug, PartialEq, Default)]
pub struct Unit;
impl Target for Unit {
    fn v(n: &Node) -> V {
        <()>::v(n)
    }
    fn m(&self, n: &Node) -> bool {
        ().m(n)
    }
}

// ---------------------------------------------------------------- wrappers

impl<T: Target> Target for Option<T> {
    fn v(n: &Node) -> V {
        match n {
            Node::E(ME::Null) => Must,
            // nothing says what a whole file is as an option
            Node::Body(_) => T::v(n).may(),
            _ => T::v(n),
        }
    }
    fn m(&self, n: &Node) -> bool {
        match (n, self) {
            (Node::E(ME::Null), x) => x.is_none(),
            (_, Some(x)) => x.m(n),
            (_, None) => false,
        }
    }
    fn absent() -> bool {
        true
    }
    fn is_absent(&self) -> bool {
        self.is_none()
    }
}
impl<T: Target> Target for Box<T> {
    fn v(n: &Node) -> V {
        T::v(n)
    }
    fn m(&self, n: &Node) -> bool {
        (**self).m(n)
    }
    fn absent() -> bool {
        T::absent()
    }
    fn is_absent(&self) -> bool {
        (**self).is_absent()
    }
}
/// A newtype struct.
#[derive(Deserialize, Debug, PartialEq, Default)]
pub struct W<T>(pub T);
impl<T: Target> Target for W<T> {
    fn v(n: &Node) -> V {
        match n {
            Node::E(_) => T::v(n),
            Node::Labelled => Fail,
            // A body is not taken as a newtype of something that a body is taken as, but that
            // would be fine
            _ => match T::v(n) {
                Fail => Fail,
                _ => May,
            },
        }
    }
    fn m(&self, n: &Node) -> bool {
        self.0.m(n)
    }
}

// ---------------------------------------------------------------- sequences

fn seq_v<T: Target>(n: &Node) -> V {
    match elements(n) {
        Some(e) => V::all(e.iter().map(T::v)),
        None => Fail,
    }
}
fn seq_m<'x, T: Target + 'x>(me: impl ExactSizeIterator<Item = &'x T>, n: &Node) -> bool {
    match elements(n) {
        Some(e) => e.len() == me.len() && me.zip(&e).all(|(x, n)| x.m(n)),
        None => false,
    }
}
impl<T: Target> Target for Vec<T> {
    fn v(n: &Node) -> V {
        seq_v::<T>(n)
    }
    fn m(&self, n: &Node) -> bool {
        seq_m(self.iter(), n)
    }
}
impl<T: Target> Target for VecDeque<T> {
    fn v(n: &Node) -> V {
        seq_v::<T>(n)
    }
    fn m(&self, n: &Node) -> bool {
        seq_m(self.iter(), n)
    }
}
impl Target for BTreeSet<String> {
    fn v(n: &Node) -> V {
        seq_v::<String>(n)
    }
    fn m(&self, n: &Node) -> bool {
        match elements(n) {
            Some(e) => {
                e.iter().all(|n| matches!(n, Node::E(ME::Str(s)) if self.contains(s)))
                    && self.iter().all(|x| e.iter().any(|n| x.m(n)))
            }
            None => false,
        }
    }
}

/// A tuple or array of fixed length.
fn fixed_v(n: &Node, vs: &[fn(&Node) -> V]) -> V {
    match n {
        Node::E(ME::Tuple(t)) => {
            if t.len() == vs.len() {
                V::all(t.iter().zip(vs).map(|(e, v)| v(&Node::E(e))))
            } else {
                Fail
            }
        }
        Node::Blocks(b) => {
            if b.len() == vs.len() {
                let v = V::all(b.iter().zip(vs).map(|(e, v)| v(&Node::Body(e))));
                // a single block is not taken as a sequence of one here, but could be
                if b.len() == 1 {
                    v.may()
                } else {
                    v
                }
            } else {
                Fail
            }
        }
        _ => Fail,
    }
}
fn fixed_m(n: &Node, ms: &[&dyn Fn(&Node) -> bool]) -> bool {
    match elements(n) {
        Some(e) => e.len() == ms.len() && e.iter().zip(ms).all(|(n, m)| m(n)),
        None => false,
    }
}
macro_rules! tuple_target {
    ($($t:ident $i:tt),+) => {
        impl<$($t: Target),+> Target for ($($t,)+) {
            fn v(n: &Node) -> V {
                fixed_v(n, &[$($t::v),+])
            }
            fn m(&self, n: &Node) -> bool {
                fixed_m(n, &[$(&|n: &Node| self.$i.m(n)),+])
            }
        }
    };
}
tuple_target!(A 0);
tuple_target!(A 0, B 1);
tuple_target!(A 0, B 1, C 2);
tuple_target!(A 0, B 1, C 2, D 3);

impl<T: Target> Target for [T; 2] {
    fn v(n: &Node) -> V {
        fixed_v(n, &[T::v, T::v])
    }
    fn m(&self, n: &Node) -> bool {
        seq_m(self.iter(), n)
    }
}
impl<T: Target> Target for [T; 3] {
    fn v(n: &Node) -> V {
        fixed_v(n, &[T::v, T::v, T::v])
    }
    fn m(&self, n: &Node) -> bool {
        seq_m(self.iter(), n)
    }
}
/// A tuple struct.
#[derive(Deserialize, Debug, PartialEq)]
pub struct Pair<A, B>(pub A, pub B);
impl<A: Target, B: Target> Target for Pair<A, B> {
    fn v(n: &Node) -> V {
        fixed_v(n, &[A::v, B::v])
    }
    fn m(&self, n: &Node) -> bool {
        fixed_m(n, &[&|n: &Node| self.0.m(n), &|n: &Node| self.1.m(n)])
    }
}

// ---------------------------------------------------------------- maps

fn map_v<T: Target>(n: &Node) -> V {
    match entries(n) {
        Some(Ok(e)) => V::all(e.all().map(|x| T::v(&x.1))),
        _ => Fail,
    }
}
fn map_m<'x, T: Target + 'x>(len: usize, get: impl Fn(&str) -> Option<&'x T>, n: &Node) -> bool {
    match entries(n) {
        Some(Ok(e)) => e.len() == len && e.all().all(|x| get(&x.0).map_or(false, |v| v.m(&x.1))),
        _ => false,
    }
}
impl<T: Target> Target for HashMap<String, T> {
    fn v(n: &Node) -> V {
        map_v::<T>(n)
    }
    fn m(&self, n: &Node) -> bool {
        map_m(self.len(), |k| self.get(k), n)
    }
}
impl<T: Target> Target for BTreeMap<String, T> {
    fn v(n: &Node) -> V {
        map_v::<T>(n)
    }
    fn m(&self, n: &Node) -> bool {
        map_m(self.len(), |k| self.get(k), n)
    }
}
/// A map with keys of one letter.
impl<T: Target> Target for BTreeMap<char, T> {
    fn v(n: &Node) -> V {
        match entries(n) {
            Some(Ok(e)) if e.all().any(|x| x.0.chars().count() != 1) => Fail,
            _ => map_v::<T>(n),
        }
    }
    fn m(&self, n: &Node) -> bool {
        map_m(self.len(), |k| k.chars().next().and_then(|c| self.get(&c)), n)
    }
}
/// A map with keys of an enumeration.
#[derive(Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
#[serde(rename_all = "lowercase")]
pub enum Letter {
    A,
    B,
    C,
}
impl Letter {
    fn of(s: &str) -> Option<Letter> {
        match s {
            "a" => Some(Letter::A),
            "b" => Some(Letter::B),
            "c" => Some(Letter::C),
            _ => None,
        }
    }
}
impl<T: Target> Target for BTreeMap<Letter, T> {
    fn v(n: &Node) -> V {
        match entries(n) {
            Some(Ok(e)) if e.all().any(|x| Letter::of(&x.0).is_none()) => Fail,
            _ => map_v::<T>(n),
        }
    }
    fn m(&self, n: &Node) -> bool {
        map_m(self.len(), |k| Letter::of(k).and_then(|c| self.get(&c)), n)
    }
}

/// Entries in the order in which they are visited.
#[derive(Debug, PartialEq, Default)]
pub struct Ordered<T>(pub Vec<(String, T)>);

impl<'de, T: Deserialize<'de>> Deserialize<'de> for Ordered<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<T>(std::marker::PhantomData<T>);
        impl<'de, T: Deserialize<'de>> Visitor<'de> for Vis<T> {
            type Value = Ordered<T>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<Ordered<T>, M::Error> {
                let mut v = vec![];
                while let Some(e) = m.next_entry()? {
                    v.push(e);
                }
                Ok(Ordered(v))
            }
        }
        d.deserialize_map(Vis(std::marker::PhantomData))
    }
}

/// Whether the visited entries are the expected ones: the ordered ones in that order, block types
/// anywhere, once each.
fn ordered_m<T>(got: &[(String, T)], e: &Entries, m: impl Fn(&T, &Node) -> bool) -> bool {
    if got.len() != e.len() {
        return false;
    }
    let mut rest = e.ordered.iter();
    let mut seen = HashSet::new();
    for (k, x) in got {
        if let Some((_, n)) = e.blocks.iter().find(|b| b.0 == *k) {
            if !seen.insert(k.clone()) || !m(x, n) {
                return false;
            }
        } else {
            match rest.next() {
                Some((l, n)) if l == k && m(x, n) => {}
                _ => return false,
            }
        }
    }
    true
}

impl<T: Target> Target for Ordered<T> {
    fn v(n: &Node) -> V {
        map_v::<T>(n)
    }
    fn m(&self, n: &Node) -> bool {
        matches!(entries(n), Some(Ok(e)) if ordered_m(&self.0, &e, |x, n| x.m(n)))
    }
}

// ---------------------------------------------------------------- a type that describes itself

#[derive(Clone, Debug, PartialEq, Default)]
pub enum Tree {
    #[default]
    Unit,
    Bool(bool),
    Int(i128),
    F(f64),
    Str(String),
    Seq(Vec<Tree>),
    Map(Vec<(String, Tree)>),
    /// Something was announced to have another length than it had.
    BadLength,
}

impl<'de> Deserialize<'de> for Tree {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tree, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = Tree;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, b: bool) -> Result<Tree, E> {
                Ok(Tree::Bool(b))
            }
            fn visit_i64<E>(self, i: i64) -> Result<Tree, E> {
                Ok(Tree::Int(i.into()))
            }
            fn visit_u64<E>(self, i: u64) -> Result<Tree, E> {
                Ok(Tree::Int(i.into()))
            }
            fn visit_i128<E>(self, i: i128) -> Result<Tree, E> {
                Ok(Tree::Int(i))
            }
            fn visit_u128<E: de::Error>(self, i: u128) -> Result<Tree, E> {
                if i > i128::MAX as u128 {
                    return Err(E::custom("too large"));
                }
                Ok(Tree::Int(i as i128))
            }
            fn visit_f64<E>(self, f: f64) -> Result<Tree, E> {
                Ok(Tree::F(f))
            }
            fn visit_str<E>(self, s: &str) -> Result<Tree, E> {
                Ok(Tree::Str(s.into()))
            }
            fn visit_unit<E>(self) -> Result<Tree, E> {
                Ok(Tree::Unit)
            }
            fn visit_none<E>(self) -> Result<Tree, E> {
                Ok(Tree::Unit)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
                Tree::deserialize(d)
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
                Tree::deserialize(d)
            }
            fn visit_seq<S: SeqAccess<'de>>(self, mut s: S) -> Result<Tree, S::Error> {
                let hint = s.size_hint();
                let mut v = vec![];
                while let Some(x) = s.next_element()? {
                    v.push(x);
                }
                if hint.map_or(false, |h| h != v.len()) {
                    return Ok(Tree::BadLength);
                }
                Ok(Tree::Seq(v))
            }
            fn visit_map<M: MapAccess<'de>>(self, mut m: M) -> Result<Tree, M::Error> {
                let hint = m.size_hint();
                let mut v = vec![];
                while let Some(k) = m.next_key()? {
                    v.push((k, m.next_value()?));
                }
                if hint.map_or(false, |h| h != v.len()) {
                    return Ok(Tree::BadLength);
                }
                Ok(Tree::Map(v))
            }
        }
        d.deserialize_any(Vis)
    }
}

impl Target for Tree {
    fn v(n: &Node) -> V {
        match n {
            Node::E(ME::Num(s)) => {
                if is_float(s) {
                    float_v(n)
                } else if int(s).map_or(false, word) {
                    Must
                } else {
                    May
                }
            }
            Node::E(ME::Tuple(t)) => V::all(t.iter().map(|e| Tree::v(&Node::E(e)))),
            Node::E(ME::Object(_)) | Node::Body(_) => map_v::<Tree>(n),
            Node::E(_) => Must,
            Node::Blocks(b) => V::all(b.iter().map(|b| Tree::v(&Node::Body(b)))),
            Node::Labelled => Fail,
        }
    }
    fn m(&self, n: &Node) -> bool {
        match (n, self) {
            (Node::E(ME::Null), Tree::Unit) => true,
            (Node::E(ME::Bool(b)), Tree::Bool(c)) => b == c,
            (Node::E(ME::Str(s)), Tree::Str(t)) => s == t,
            (Node::E(ME::Num(s)), Tree::F(f)) => is_float(s) && f.m(n),
            (Node::E(ME::Num(s)), Tree::Int(i)) => !is_float(s) && i.m(n),
            (Node::E(ME::Tuple(_)), Tree::Seq(v)) => seq_m(v.iter(), n),
            (Node::E(ME::Object(_)), Tree::Map(v)) | (Node::Body(_), Tree::Map(v)) => {
                matches!(entries(n), Some(Ok(e)) if ordered_m(v, &e, |x, n| x.m(n)))
            }
            (Node::Blocks(b), Tree::Map(_)) => b.len() == 1 && self.m(&Node::Body(b[0])),
            (Node::Blocks(_), Tree::Seq(v)) => seq_m(v.iter(), n),
            _ => false,
        }
    }
}

/// Reads what it is given and forgets it.
#[derive(Deserialize, Debug)]
pub struct Ignored(#[allow(dead_code)] de::IgnoredAny);
/// Whether something that is ignored can be: values that could not be read may be an error.
pub fn ignored_v(n: &Node) -> V {
    match n {
        Node::Blocks(_) | Node::Labelled => Must,
        Node::E(_) => match Tree::v(n) {
            Fail => May,
            v => v,
        },
        Node::Body(_) => May,
    }
}

// ---------------------------------------------------------------- structs

/// Fields: their names, whether they may be absent, and their verdicts.
pub struct Field {
    pub name: &'static str,
    pub optional: bool,
    pub v: fn(&Node) -> V,
}

pub fn struct_v(n: &Node, fields: &[Field], deny: bool, default: bool) -> V {
    match entries(n) {
        Some(Err(())) => Fail,
        Some(Ok(e)) => {
            let mut v = Must;
            for f in fields {
                v = v.and(match e.get(f.name) {
                    Some(n) => (f.v)(n),
                    None if f.optional || default => Must,
                    None => Fail,
                });
            }
            for (k, n) in e.all() {
                if !fields.iter().any(|f| f.name == k) {
                    v = v.and(if deny { Fail } else { ignored_v(n) });
                }
            }
            v
        }
        // by position
        None => match elements(n) {
            Some(e) => {
                if e.len() > fields.len() || (e.len() < fields.len() && !default) {
                    return Fail;
                }
                let v = V::all(e.iter().zip(fields).map(|(n, f)| (f.v)(n)));
                if matches!(n, Node::E(_)) && e.len() == fields.len() {
                    v
                } else {
                    v.may()
                }
            }
            None => Fail,
        },
    }
}

pub fn struct_m(n: &Node, ms: &[(&'static str, &dyn Fn(Option<&Node>) -> bool)]) -> bool {
    match entries(n) {
        Some(Ok(e)) => ms.iter().all(|(k, m)| m(e.get(k))),
        Some(Err(())) => false,
        None => match elements(n) {
            Some(e) => e.len() <= ms.len() && ms.iter().enumerate().all(|(i, (_, m))| m(e.get(i))),
            None => false,
        },
    }
}

macro_rules! structs {
    ($($(#[$a:meta])* $name:ident <$($g:ident),*> deny $deny:literal default $def:literal { $($f:ident : $t:ty),* })*) => {$(
        #[derive(Deserialize, Debug, Default, PartialEq)]
        $(#[$a])*
        pub struct $name<$($g),*> { $($f: $t),* }
        impl<$($g: Target + Default + PartialEq),*> Target for $name<$($g),*> {
            fn v(n: &Node) -> V {
                struct_v(n, &[$(Field { name: stringify!($f), optional: <$t as Target>::absent(), v: <$t as Target>::v }),*], $deny, $def)
            }
            fn m(&self, n: &Node) -> bool {
                struct_m(n, &[$((stringify!($f), &|n: Option<&Node>| match n {
                    Some(n) => self.$f.m(n),
                    None => if $def { self.$f == Default::default() } else { <$t as Target>::is_absent(&self.$f) },
                })),*])
            }
        }
    )*};
}

structs! {
    None0<> deny false default false { }
    One<T> deny false default false { x: T }
    OneA<T> deny false default false { a: T }
    #[serde(deny_unknown_fields)]
    OneAStrict<T> deny true default false { a: T }
    Ab<S, T> deny false default false { a: S, b: T }
    #[serde(deny_unknown_fields)]
    AbStrict<S, T> deny true default false { a: S, b: T }
    #[serde(default)]
    AbDefault<S, T> deny false default true { a: S, b: T }
    Abc<R, S, T> deny false default false { a: R, b: S, c: T }
    #[serde(deny_unknown_fields)]
    AbcStrict<R, S, T> deny true default false { a: R, b: S, c: T }
}

/// A struct that keeps the fields it does not name.
#[derive(Deserialize, Debug)]
pub struct Rest {
    a: Tree,
    #[serde(flatten)]
    rest: BTreeMap<String, Tree>,
}
impl Target for Rest {
    fn v(n: &Node) -> V {
        match entries(n) {
            Some(Ok(e)) if e.get("a").is_some() => V::all(e.all().map(|x| Tree::v(&x.1))),
            _ => Fail,
        }
    }
    fn m(&self, n: &Node) -> bool {
        match entries(n) {
            Some(Ok(e)) => {
                e.len() == self.rest.len() + 1
                    && e.all().all(|(k, n)| if k == "a" { self.a.m(n) } else { self.rest.get(k).map_or(false, |x| x.m(n)) })
            }
            _ => false,
        }
    }
}

/// An untagged enumeration.
#[derive(Deserialize, Debug)]
#[serde(untagged)]
pub enum Un {
    I(u64),
    S(String),
    L(Vec<Un>),
    M(BTreeMap<String, Un>),
}
impl Target for Un {
    fn v(n: &Node) -> V {
        match n {
            Node::E(ME::Num(_)) => u64::v(n),
            Node::E(ME::Str(_)) => Must,
            Node::E(ME::Tuple(t)) => V::all(t.iter().map(|e| Un::v(&Node::E(e)))),
            Node::Blocks(b) if b.len() != 1 => V::all(b.iter().map(|b| Un::v(&Node::Body(b)))),
            _ => map_v::<Un>(n),
        }
    }
    fn m(&self, n: &Node) -> bool {
        match self {
            Un::I(i) => i.m(n),
            Un::S(s) => s.m(n),
            Un::L(l) => seq_m(l.iter(), n),
            Un::M(m) => m.m(n),
        }
    }
}
