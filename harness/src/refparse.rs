//! A hand written recursive descent recogniser of the accepted dialect, independent of the
//! library. `Some((position, value))` on success, `None` on failure.
use crate::model::*;

pub type R<T> = Option<(usize, T)>;

pub struct P<'a> {
    pub s: &'a str,
}

pub fn id_start(c: char) -> bool {
    c == '_' || unic_ucd_ident::is_id_start(c)
}
pub fn id_continue(c: char) -> bool {
    c == '-' || unic_ucd_ident::is_id_continue(c)
}

impl<'a> P<'a> {
    pub fn at(&self, p: usize, t: &str) -> bool {
        self.s[p..].starts_with(t)
    }
    pub fn tag(&self, p: usize, t: &str) -> Option<usize> {
        if self.at(p, t) {
            Some(p + t.len())
        } else {
            None
        }
    }
    pub fn eol(&self, p: usize) -> Option<usize> {
        self.tag(p, "\n").or_else(|| self.tag(p, "\r\n"))
    }
    pub fn inline_comment(&self, p: usize) -> Option<usize> {
        let q = self.tag(p, "/*")?;
        let n = self.s[q..].find("*/")?;
        Some(q + n + 2)
    }
    pub fn line_comment(&self, p: usize) -> Option<usize> {
        let q = self.tag(p, "#").or_else(|| self.tag(p, "//"))?;
        let n = self.s[q..].find(|c| c == '\r' || c == '\n')?;
        self.eol(q + n)
    }
    /// Blanks and inline comments.
    pub fn iws(&self, mut p: usize) -> usize {
        loop {
            if let Some(q) = self.inline_comment(p) {
                p = q;
            } else if self.at(p, " ") || self.at(p, "\t") {
                p += 1;
            } else {
                return p;
            }
        }
    }
    /// Blanks, newlines and all comments.
    pub fn ws(&self, mut p: usize) -> usize {
        loop {
            if let Some(q) = self.inline_comment(p).or_else(|| self.line_comment(p)) {
                p = q;
            } else if p < self.s.len() && " \t\r\n".contains(self.s.as_bytes()[p] as char) && self.s.as_bytes()[p] < 128 {
                p += 1;
            } else {
                return p;
            }
        }
    }
    /// At least one line comment, inline comment that ends its line, or end of line.
    pub fn newline(&self, p: usize) -> Option<usize> {
        let one = |p: usize| {
            self.line_comment(p)
                .or_else(|| self.inline_comment(p).and_then(|q| self.eol(q)))
                .or_else(|| self.eol(p))
        };
        let mut p = one(p)?;
        while let Some(q) = one(p) {
            p = q;
        }
        Some(p)
    }
    pub fn ident(&self, p: usize) -> R<String> {
        let mut cs = self.s[p..].char_indices();
        let (_, c) = cs.next()?;
        if !id_start(c) {
            return None;
        }
        // U+005F is itself ID_Continue, so the first character always is
        let n = self.s[p..].find(|c| !id_continue(c)).unwrap_or(self.s.len() - p);
        if n == 0 {
            return None;
        }
        Some((p + n, self.s[p..p + n].to_string()))
    }
    /// A quoted string; `multi` allows raw line breaks.
    pub fn quoted(&self, p: usize, multi: bool) -> R<String> {
        let mut p = self.tag(p, "\"")?;
        let mut out = String::new();
        loop {
            let c = self.s[p..].chars().next()?;
            match c {
                '"' => return Some((p + 1, out)),
                '\\' => {
                    let (q, ch) = self.escape(p + 1)?;
                    out.push(ch);
                    p = q;
                }
                '\r' | '\n' if !multi => return None,
                c => {
                    out.push(c);
                    p += c.len_utf8();
                }
            }
        }
    }
    pub fn escape(&self, p: usize) -> R<char> {
        let c = self.s[p..].chars().next()?;
        let simple = match c {
            'a' => Some('\u{7}'),
            'b' => Some('\u{8}'),
            'f' => Some('\u{c}'),
            'n' => Some('\n'),
            'r' => Some('\r'),
            't' => Some('\t'),
            'v' => Some('\u{b}'),
            '\\' => Some('\\'),
            '"' => Some('"'),
            '?' => Some('?'),
            _ => None,
        };
        if let Some(x) = simple {
            return Some((p + 1, x));
        }
        let (start, max, radix) = match c {
            '0'..='7' => (p, 3, 8),
            'x' => (p + 1, 2, 16),
            'u' => (p + 1, 4, 16),
            'U' => (p + 1, 8, 16),
            _ => return None,
        };
        let digits: String = self.s[start..].chars().take(max).take_while(|c| c.is_digit(radix)).collect();
        if digits.is_empty() {
            return None;
        }
        let mut v: u64 = 0;
        for d in digits.chars() {
            v = v * u64::from(radix) + u64::from(d.to_digit(radix)?);
        }
        let ch = std::char::from_u32(u32::try_from(v).ok()?)?;
        Some((start + digits.len(), ch))
    }
    pub fn heredoc(&self, p: usize) -> R<String> {
        let mut p = self.tag(p, "<<")?;
        let indented = self.at(p, "-");
        if indented {
            p += 1;
        }
        let n = self.s[p..].find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(self.s.len() - p);
        if n == 0 {
            return None;
        }
        let marker = &self.s[p..p + n];
        p += n;
        self.eol(p)?;
        let end = |p: usize| -> Option<(usize, usize)> {
            let q = self.eol(p)?;
            let b = self.s[q..].len() - self.s[q..].trim_start_matches(|c| c == ' ' || c == '\t').len();
            let r = self.tag(q + b, marker)?;
            self.eol(r)?;
            Some((r, b))
        };
        if let Some((q, _)) = end(p) {
            return Some((q, String::new()));
        }
        let start = self.eol(p)?;
        let mut i = start;
        loop {
            if let Some((q, indent)) = end(i) {
                let raw = &self.s[start..i];
                let text = if indented { unindent(raw, indent) } else { raw.to_string() };
                return Some((q, text));
            }
            i += self.s[i..].chars().next()?.len_utf8();
        }
    }
    pub fn string(&self, p: usize) -> R<String> {
        self.quoted(p, true).or_else(|| self.heredoc(p))
    }
    pub fn number(&self, p: usize) -> R<String> {
        let b = self.s.as_bytes();
        let digits = |mut q: usize| {
            while q < b.len() && b[q].is_ascii_digit() {
                q += 1;
            }
            q
        };
        let mut q = p;
        if self.at(q, "+") || self.at(q, "-") {
            q += 1;
        }
        let w = digits(q);
        if w > q {
            q = w;
            if self.at(q, ".") {
                q = digits(q + 1);
            }
        } else if self.at(q, ".") {
            let f = digits(q + 1);
            if f == q + 1 {
                return None;
            }
            q = f;
        } else {
            return None;
        }
        if self.at(q, "e") || self.at(q, "E") {
            let mut e = q + 1;
            if self.at(e, "+") || self.at(e, "-") {
                e += 1;
            }
            let f = digits(e);
            if f > e {
                q = f;
            }
        }
        Some((q, self.s[p..q].to_string()))
    }
    pub fn expr(&self, p: usize) -> R<ME> {
        if let Some(q) = self.tag(p, "null") {
            return Some((q, ME::Null));
        }
        if let Some((q, n)) = self.number(p) {
            return Some((q, ME::Num(n)));
        }
        if let Some(q) = self.tag(p, "true") {
            return Some((q, ME::Bool(true)));
        }
        if let Some(q) = self.tag(p, "false") {
            return Some((q, ME::Bool(false)));
        }
        if let Some((q, s)) = self.string(p) {
            return Some((q, ME::Str(s)));
        }
        if let Some((q, t)) = self.tuple(p) {
            return Some((q, ME::Tuple(t)));
        }
        if let Some((q, o)) = self.object(p) {
            return Some((q, ME::Object(o)));
        }
        let q = self.tag(self.ws(p), "(")?;
        let (q, e) = self.expr(self.ws(q))?;
        let q = self.tag(self.ws(q), ")")?;
        Some((q, e))
    }
    pub fn tuple(&self, p: usize) -> R<Vec<ME>> {
        let mut p = self.tag(p, "[")?;
        let mut out = vec![];
        if let Some((q, e)) = self.expr(self.ws(p)) {
            out.push(e);
            p = q;
            while let Some(q) = self.tag(self.ws(p), ",") {
                match self.expr(self.ws(q)) {
                    Some((r, e)) => {
                        out.push(e);
                        p = r;
                    }
                    None => break,
                }
            }
        }
        p = self.ws(p);
        if let Some(q) = self.tag(p, ",") {
            p = self.ws(q);
        }
        Some((self.tag(p, "]")?, out))
    }
    pub fn object(&self, p: usize) -> R<Vec<(MK, ME)>> {
        let mut p = self.tag(self.ws(p), "{")?;
        let mut out = vec![];
        loop {
            p = self.ws(p);
            match self.object_element(p) {
                Some((q, e)) => {
                    let end = self.tag(q, ",").or_else(|| self.newline(q)).or_else(|| if self.at(q, "}") { Some(q) } else { None });
                    match end {
                        Some(r) => {
                            out.push(e);
                            p = r;
                        }
                        None => break,
                    }
                }
                None => break,
            }
        }
        p = self.ws(p);
        Some((self.tag(p, "}")?, out))
    }
    pub fn object_element(&self, p: usize) -> R<(MK, ME)> {
        let p = self.iws(p);
        let (q, k) = if let Some((q, i)) = self.ident(p) {
            (q, MK::Ident(i))
        } else {
            let (q, _) = self.expr(p)?;
            (q, MK::Expr(self.s[p..q].to_string()))
        };
        let q = self.tag(self.iws(q), "=")?;
        let (q, v) = self.expr(self.iws(q))?;
        Some((self.iws(q), (k, v)))
    }
    pub fn attribute(&self, p: usize) -> R<(String, ME)> {
        let (p, k) = self.ident(self.iws(p))?;
        let p = self.tag(self.iws(p), "=")?;
        let (p, e) = self.expr(self.iws(p))?;
        Some((self.iws(p), (k, e)))
    }
    pub fn header(&self, p: usize) -> R<(String, Vec<ML>)> {
        let (mut p, ty) = self.ident(self.iws(p))?;
        let mut labels = vec![];
        loop {
            let q = self.iws(p);
            if let Some((r, i)) = self.ident(q) {
                labels.push(ML::Ident(i));
                p = self.iws(r);
            } else if let Some((r, s)) = self.quoted(q, false) {
                labels.push(ML::Lit(s));
                p = self.iws(r);
            } else {
                break;
            }
        }
        Some((self.tag(self.iws(p), "{")?, (ty, labels)))
    }
    pub fn one_line(&self, p: usize) -> R<MB> {
        let (p, (ty, labels)) = self.header(p)?;
        let (p, body) = match self.attribute(p) {
            Some((q, (k, v))) => (q, vec![MEl::Attr(k, v)]),
            None => (p, vec![]),
        };
        let p = self.tag(self.iws(p), "}")?;
        Some((self.iws(p), MB { ty, labels, body }))
    }
    pub fn block(&self, p: usize) -> R<MB> {
        let (p, (ty, labels)) = self.header(p)?;
        let p = self.newline(self.iws(p))?;
        let (p, body) = self.body(self.iws(p))?;
        let p = self.tag(self.iws(p), "}")?;
        Some((self.iws(p), MB { ty, labels, body }))
    }
    pub fn body(&self, p: usize) -> R<MBody> {
        let mut p = self.ws(p);
        let mut out = vec![];
        loop {
            let start = self.ws(p);
            let el = self
                .attribute(start)
                .map(|(q, (k, v))| (q, MEl::Attr(k, v)))
                .or_else(|| self.one_line(start).map(|(q, b)| (q, MEl::Block(b))))
                .or_else(|| self.block(start).map(|(q, b)| (q, MEl::Block(b))));
            let (q, e) = match el {
                Some(x) => x,
                None => break,
            };
            let r = match self.newline(q) {
                Some(r) => r,
                None if q == self.s.len() => q,
                None => break,
            };
            out.push(e);
            p = r;
        }
        Some((self.ws(p), out))
    }
}

pub fn unindent(raw: &str, indent: usize) -> String {
    let lines: Vec<String> = raw
        .split('\n')
        .map(|l| {
            let lead = l.chars().take_while(|c| *c == ' ').count().min(indent);
            l[lead..].to_string()
        })
        .collect();
    lines.join("\n")
}

/// A whole configuration file.
pub fn config(s: &str) -> Option<MBody> {
    let p = P { s };
    let (q, b) = p.body(0)?;
    if q == s.len() {
        Some(b)
    } else {
        None
    }
}

/// A whole expression.
pub fn expression(s: &str) -> Option<ME> {
    let p = P { s };
    let (q, e) = p.expr(0)?;
    if q == s.len() {
        Some(e)
    } else {
        None
    }
}
