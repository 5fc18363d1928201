//! Writes a model document as text. Every gap of the text is a place where the layout may depart
//! from the default; the departures are choices of the explorer.
use crate::explore::Chooser;
use crate::model::*;

pub const INLINE: &[&str] = &[
    "", " ", "\t", "  \t ", "/**/", "/* c */", " /* a\nb */ ", "/* \" { } = # // */", "/***/", "/* é */\t",
    "/* a */ /* b */", "/*/*/", "/* * / */",
];
pub const MULTI: &[&str] = &[
    "", " ", "\n", "\r\n", "# c\n", "// c\r\n", "/* c */", "\t\n  \n", "#\n", "//\n", " # \" { [\n", "// /* \n",
    "/* # */\n", "# // c\n\n# d\n", "/* a\n b */", "# é\n",
];
pub const LINE: &[&str] = &[
    "\n", "\r\n", "# c\n", "// c\n", "/* c */\n", "\n\n\n", "#\r\n", "// é \" {\r\n", "\n# c\n", "\n/* c */\n", "\n  \t\n",
    "/* c\nd */\n", "\n/* c */", "# a = 1\n", "\n// }\n",
];

pub struct Render<'c> {
    pub ch: Option<&'c mut Chooser>,
    pub out: String,
    /// number of gaps written
    pub gaps: usize,
    /// the last entry of an object ends like the others
    pub common: bool,
}

/// Writes a string as a quoted string literal.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'c> Render<'c> {
    pub fn new(ch: Option<&'c mut Chooser>) -> Self {
        Render { ch, out: String::new(), gaps: 0, common: false }
    }
    fn gap(&mut self, default: &str, others: &[&str]) {
        self.gaps += 1;
        let i = match &mut self.ch {
            Some(ch) => ch.deviate(others.len() + 1),
            None => 0,
        };
        self.out.push_str(if i == 0 { default } else { others[i - 1] });
    }
    /// Between tokens of one line.
    pub fn i(&mut self, default: &str) {
        self.gap(default, INLINE)
    }
    /// Between a label and the token next to it, where something has to separate two identifiers.
    fn sep(&mut self, must: bool) {
        if must {
            self.gap(" ", &INLINE[1..])
        } else {
            self.gap(" ", INLINE)
        }
    }
    /// Where newlines are blank.
    pub fn m(&mut self, default: &str) {
        self.gap(default, MULTI)
    }
    /// Ends a line.
    pub fn nl(&mut self) {
        self.gap("\n", LINE)
    }
    pub fn expr(&mut self, e: &ME) {
        match e {
            ME::Null => self.out.push_str("null"),
            ME::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            ME::Num(n) => self.out.push_str(n),
            ME::Str(s) => self.out.push_str(&quote(s)),
            ME::Tuple(t) => {
                self.out.push('[');
                for (i, e) in t.iter().enumerate() {
                    if i > 0 {
                        self.m("");
                        self.out.push(',');
                    }
                    self.m(if i > 0 { " " } else { "" });
                    self.expr(e);
                }
                self.m("");
                if !t.is_empty() {
                    // a trailing comma is part of the layout
                    self.gap("", &[",", ",\n", " , "]);
                }
                self.out.push(']');
            }
            ME::Object(o) => {
                self.out.push('{');
                self.m(" ");
                let n = o.len();
                for (i, (k, v)) in o.iter().enumerate() {
                    self.i("");
                    match k {
                        MK::Ident(s) => self.out.push_str(s),
                        MK::Expr(s) => self.out.push_str(s),
                    }
                    self.i(" ");
                    self.out.push('=');
                    self.i(" ");
                    self.expr(v);
                    self.i("");
                    if i + 1 < n {
                        self.gap(",", &["\n", "\r\n", "# c\n", ",\n", ", // c\n", "/* c */\n"]);
                    } else if self.common {
                        self.gap("\n", &[",", "\r\n", ",\n", "// c\n", " , # c\n"]);
                    } else {
                        self.gap(" ", &["", ",", "\n", ",\n", "// c\n", " , # c\n"]);
                    }
                    self.m(" ");
                }
                self.out.push('}');
            }
        }
    }
    fn header(&mut self, b: &MB) {
        self.i("");
        self.out.push_str(&b.ty);
        let mut last_ident = true;
        for l in &b.labels {
            match l {
                ML::Ident(s) => {
                    self.sep(last_ident);
                    self.out.push_str(s);
                    last_ident = true;
                }
                ML::Lit(s) => {
                    self.sep(false);
                    self.out.push_str(&quote(s));
                    last_ident = false;
                }
            }
        }
        self.i(" ");
        self.out.push('{');
    }
    pub fn attr(&mut self, k: &str, v: &ME) {
        self.i("");
        self.out.push_str(k);
        self.i(" ");
        self.out.push('=');
        self.i(" ");
        self.expr(v);
        self.i("");
    }
    /// A block on one line when it can be and `one_line` says so.
    pub fn block(&mut self, b: &MB, one_line: &mut dyn FnMut(&MB) -> bool) {
        self.header(b);
        let can = match b.body.as_slice() {
            [] => true,
            [MEl::Attr(_, _)] => true,
            _ => false,
        };
        if can && one_line(b) {
            if let [MEl::Attr(k, v)] = b.body.as_slice() {
                self.i(" ");
                self.attr(k, v);
            } else {
                self.i("");
            }
            self.i("");
        } else {
            self.i("");
            self.nl();
            self.body(&b.body, one_line);
        }
        self.out.push('}');
        self.i("");
    }
    /// Elements, each with the end of its line.
    pub fn body(&mut self, b: &[MEl], one_line: &mut dyn FnMut(&MB) -> bool) {
        self.m("");
        for e in b {
            match e {
                MEl::Attr(k, v) => self.attr(k, v),
                MEl::Block(b) => self.block(b, one_line),
            }
            self.nl();
            self.m("");
        }
    }
}

/// The document in the default layout.
pub fn plain(b: &[MEl]) -> String {
    let mut r = Render::new(None);
    r.body(b, &mut |b: &MB| b.body.is_empty());
    r.out
}

pub fn plain_expr(e: &ME) -> String {
    let mut r = Render::new(None);
    r.expr(e);
    r.out
}
