//! Reference recogniser of the dialect of the older front-end (`value::from_str`).
use crate::model::*;
use crate::refparse::{P, R};

impl<'a> P<'a> {
    fn l_number(&self, p: usize) -> R<MV> {
        let (q, t) = self.number(p)?;
        let v = match t.parse::<i64>() {
            Ok(i) => MV::Int(i),
            Err(_) => MV::Float(t.parse::<f64>().ok()?.to_bits()),
        };
        Some((q, v))
    }
    pub fn l_value(&self, p: usize) -> R<MV> {
        if let Some(q) = self.tag(p, "null") {
            return Some((q, MV::Null));
        }
        if let Some(x) = self.l_number(p) {
            return Some(x);
        }
        if let Some(q) = self.tag(p, "true") {
            return Some((q, MV::Bool(true)));
        }
        if let Some(q) = self.tag(p, "false") {
            return Some((q, MV::Bool(false)));
        }
        if let Some((q, s)) = self.string(p) {
            return Some((q, MV::Str(s)));
        }
        if let Some((q, l)) = self.l_list(p) {
            return Some((q, MV::List(l)));
        }
        let (q, m) = self.l_map(p)?;
        Some((q, MV::Object(vec![m])))
    }
    fn l_list(&self, p: usize) -> R<Vec<MV>> {
        let mut p = self.tag(p, "[")?;
        let mut out = vec![];
        if let Some((q, e)) = self.l_value(self.ws(p)) {
            out.push(e);
            p = q;
            while let Some(q) = self.tag(self.ws(p), ",") {
                match self.l_value(self.ws(q)) {
                    Some((r, e)) => {
                        out.push(e);
                        p = r;
                    }
                    None => break,
                }
            }
        }
        p = self.ws(p);
        if let Some(q) = self.tag(p, ",") {
            p = self.ws(q);
        }
        Some((self.tag(p, "]")?, out))
    }
    fn l_map(&self, p: usize) -> R<MM> {
        let p = self.tag(self.ws(p), "{")?;
        let (p, m) = self.l_values(self.ws(p))?;
        let p = self.ws(p);
        Some((self.tag(p, "}")?, m))
    }
    fn l_attribute(&self, p: usize) -> R<(String, MV)> {
        let p = self.iws(p);
        let key = self.ident(p).or_else(|| self.quoted(p, false));
        if let Some((q, k)) = key {
            if let Some(q) = self.tag(self.iws(q), "=") {
                if let Some((q, v)) = self.l_value(self.iws(q)) {
                    return Some((self.iws(q), (k, v)));
                }
            }
        }
        let (q, k) = self.ident(p)?;
        if let Some((q, m)) = self.l_map(self.iws(q)) {
            return Some((self.iws(q), (k, MV::Object(vec![m]))));
        }
        let mut labels = vec![];
        let mut p = self.iws(q);
        while let Some((q, s)) = self.quoted(p, false) {
            labels.push(s);
            p = self.iws(q);
        }
        if labels.is_empty() {
            return None;
        }
        let (q, m) = self.l_map(p)?;
        Some((self.iws(q), (k, MV::Block(false, vec![(labels, m)]))))
    }
    fn l_values(&self, p: usize) -> R<MM> {
        let mut p = self.ws(p);
        let mut entries = vec![];
        loop {
            let (q, e) = match self.l_attribute(self.ws(p)) {
                Some(x) => x,
                None => break,
            };
            let comma = self.tag(self.ws(q), ",").map(|r| self.ws(r));
            let r = match comma.or_else(|| self.newline(q)) {
                Some(r) => r,
                None if q == self.s.len() => q,
                None => break,
            };
            entries.push(e);
            p = r;
        }
        Some((self.ws(p), MM { merged: false, entries }))
    }
}

/// A whole document, unmerged.
pub fn document(s: &str) -> Option<MM> {
    let p = P { s };
    let (q, m) = p.l_values(0)?;
    if q == s.len() {
        Some(m)
    } else {
        None
    }
}
