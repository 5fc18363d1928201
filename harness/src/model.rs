//! Plain mirror of what the parsers return, built through the public API only.
use ferrous_chloride::parser::block::BlockLabel;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::{Block, Expression};
use ferrous_chloride::value::{MapValues, Value};
use ferrous_chloride::KeyValuePairs;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ME {
    Null,
    Num(String),
    Bool(bool),
    Str(String),
    Tuple(Vec<ME>),
    Object(Vec<(MK, ME)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MK {
    Ident(String),
    Expr(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum ML {
    Ident(String),
    Lit(String),
}

impl ML {
    pub fn text(&self) -> &str {
        match self {
            ML::Ident(s) | ML::Lit(s) => s,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MB {
    pub ty: String,
    pub labels: Vec<ML>,
    pub body: MBody,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MEl {
    Attr(String, ME),
    Block(MB),
}

pub type MBody = Vec<MEl>;

pub fn expr(e: &Expression) -> ME {
    match e {
        Expression::Null => ME::Null,
        Expression::Number(n) => ME::Num(n.to_string()),
        Expression::Boolean(b) => ME::Bool(*b),
        Expression::String(s) => ME::Str(s.to_string()),
        Expression::Tuple(t) => ME::Tuple(t.iter().map(expr).collect()),
        Expression::Object(o) => ME::Object(o.iter().map(|(k, v)| (okey(k), expr(v))).collect()),
    }
}

pub fn okey(k: &ObjectElementIdentifier) -> MK {
    match k {
        ObjectElementIdentifier::Identifier(s) => MK::Ident(s.to_string()),
        ObjectElementIdentifier::Expression(s) => MK::Expr(s.to_string()),
    }
}

pub fn label(l: &BlockLabel) -> ML {
    match l {
        BlockLabel::StringLiteral(s) => ML::Lit(s.clone()),
        BlockLabel::Identifier(s) => ML::Ident(s.to_string()),
    }
}

pub fn block(b: &Block) -> MB {
    MB { ty: b.r#type.to_string(), labels: b.labels.iter().map(label).collect(), body: body(&b.body) }
}

pub fn element(e: &BodyElement) -> MEl {
    match e {
        BodyElement::Attribute((k, v)) => MEl::Attr(k.to_string(), expr(v)),
        BodyElement::Block(b) => MEl::Block(block(b)),
    }
}

pub fn body(b: &[BodyElement]) -> MBody {
    b.iter().map(element).collect()
}

/// Values of the older front-end. Floats are compared by their bits.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MV {
    Null,
    Int(i64),
    Float(u64),
    Bool(bool),
    Str(String),
    List(Vec<MV>),
    Object(Vec<MM>),
    Block(bool, Vec<(Vec<String>, MM)>),
}

/// A map: whether it is merged, and its entries in order (sorted by key when merged).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MM {
    pub merged: bool,
    pub entries: Vec<(String, MV)>,
}

pub fn value(v: &Value) -> MV {
    match v {
        Value::Null => MV::Null,
        Value::Integer(i) => MV::Int(*i),
        Value::Float(f) => MV::Float(f.to_bits()),
        Value::Boolean(b) => MV::Bool(*b),
        Value::String(s) => MV::Str(s.clone()),
        Value::List(l) => MV::List(l.iter().map(value).collect()),
        Value::Object(o) => MV::Object(o.iter().map(map).collect()),
        Value::Block(b) => match b {
            KeyValuePairs::Unmerged(v) => {
                MV::Block(false, v.iter().map(|(k, m)| (k.clone(), map(m))).collect())
            }
            KeyValuePairs::Merged(h) => {
                let mut v: Vec<_> = h.iter().map(|(k, m)| (k.clone(), map(m))).collect();
                v.sort();
                MV::Block(true, v)
            }
        },
    }
}

pub fn map(m: &MapValues) -> MM {
    match m {
        KeyValuePairs::Unmerged(v) => {
            MM { merged: false, entries: v.iter().map(|(k, x)| (k.to_string(), value(x))).collect() }
        }
        KeyValuePairs::Merged(h) => {
            let mut e: Vec<_> = h.iter().map(|(k, x)| (k.to_string(), value(x))).collect();
            e.sort();
            MM { merged: true, entries: e }
        }
    }
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Shortens a long text for a message.
pub fn clip(s: &str) -> String {
    if s.chars().count() > 400 {
        let a: String = s.chars().take(300).collect();
        format!("{}... ({} bytes)", a, s.len())
    } else {
        s.to_string()
    }
}
