//! Documents that grow in one direction only.
use crate::gen::*;
use crate::model::*;
use crate::render::quote;

pub const FLAT: usize = 29;
/// Kinds that take long.
pub const SLOW: &[usize] = &[2, 3, 18, 22, 24, 25];
pub const DEEP: usize = 7;

pub fn sizes(big: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    v.extend([99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]);
    if big {
        v.extend([2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 65535, 65536, 65537]);
    }
    v
}

/// Beyond what 16 bits count.
pub fn large(big: bool) -> Vec<usize> {
    if big {
        vec![32767, 32768, 32769, 40000, 65535, 65536, 65537, 100000, 131073, 200000]
    } else {
        vec![65537]
    }
}

pub fn depths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    v.extend([99, 100, 101, 120, 127, 128, 129, 150]);
    v
}

fn text(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}

/// A document of size `n`, and what it stands for.
pub fn flat(kind: usize, n: usize) -> (String, MBody) {
    let mut t = String::new();
    let mut b: MBody = vec![];
    match kind {
        0 => {
            for i in 0..n {
                t.push_str(&format!("a{} = {}\n", i, i));
                b.push(attr(&format!("a{}", i), num(&i.to_string())));
            }
        }
        1 => {
            for i in 0..n {
                t.push_str(&format!("a = \"{}\"\n", i));
                b.push(attr("a", st(&i.to_string())));
            }
        }
        2 => {
            for i in 0..n {
                t.push_str(&format!("b {} {{\n}}\n", if i % 2 == 0 { "x" } else { "\"x\"" }));
                b.push(blk("b", vec![if i % 2 == 0 { idl("x") } else { lit("x") }], vec![]));
            }
        }
        3 => {
            let mut inner = vec![];
            t.push_str("b {\n");
            for i in 0..n {
                t.push_str(&format!("  a{} = true\n", i));
                inner.push(attr(&format!("a{}", i), ME::Bool(true)));
            }
            t.push_str("}\n");
            b.push(blk("b", vec![], inner));
        }
        4 | 5 => {
            let mut ls = vec![];
            t.push('b');
            for i in 0..n {
                if kind == 4 {
                    t.push_str(&format!(" \"l {}\"", i));
                    ls.push(lit(&format!("l {}", i)));
                } else {
                    t.push_str(&format!(" l{}", i));
                    ls.push(idl(&format!("l{}", i)));
                }
            }
            t.push_str(" {\n  a = 1\n}\nc = 2\n");
            b.push(blk("b", ls, vec![attr("a", num("1"))]));
            b.push(attr("c", num("2")));
        }
        6 => {
            let v: Vec<ME> = (0..n).map(|i| num(&i.to_string())).collect();
            let w: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            t = format!("a = [{}]\n", w.join(", "));
            b.push(attr("a", ME::Tuple(v)));
        }
        7 => {
            let v: Vec<ME> = (0..n).map(|i| st(&i.to_string())).collect();
            let w: Vec<String> = (0..n).map(|i| format!("\"{}\",\n", i)).collect();
            t = format!("a = [\n{}]\n", w.concat());
            b.push(attr("a", ME::Tuple(v)));
        }
        8 => {
            let w: Vec<String> = (0..n).map(|i| format!("k{} = {}\n", i, i)).collect();
            t = format!("a = {{\n{}}}\n", w.concat());
            b.push(attr("a", ME::Object((0..n).map(|i| (MK::Ident(format!("k{}", i)), num(&i.to_string()))).collect())));
        }
        9 => {
            let w: Vec<String> = (0..n).map(|i| format!("\"k{}\" = null", i)).collect();
            t = format!("a = {{ {} }}\n", w.join(", "));
            b.push(attr("a", ME::Object((0..n).map(|i| (MK::Expr(format!("\"k{}\"", i)), ME::Null)).collect())));
        }
        10 => {
            t = format!("a = {}\n", quote(&text(n)));
            b.push(attr("a", st(&text(n))));
        }
        11 => {
            let id = format!("i{}", text(n));
            t = format!("{} = 1\n{} {} {{}}\n", id, id, id);
            b.push(attr(&id, num("1")));
            b.push(blk(&id, vec![idl(&id)], vec![]));
        }
        12 => {
            let d: String = (0..=n).map(|i| (b'0' + ((i * 7 + 1) % 10) as u8) as char).collect();
            t = format!("a = {}\nb = -{}.{}e{}\n", d, d, d, n % 300);
            b.push(attr("a", num(&d)));
            b.push(attr("b", num(&format!("-{}.{}e{}", d, d, n % 300))));
        }
        13 => {
            let lines: Vec<String> = (0..n).map(|i| format!("{}line {}", if i % 3 == 0 { "  " } else { "" }, i)).collect();
            let mut body = lines.join("\n");
            if n > 0 {
                body.push('\n');
            }
            t = format!("a = <<EOF\n{}EOF\nb = 1\n", body);
            b.push(attr("a", st(&lines.join("\n"))));
            b.push(attr("b", num("1")));
        }
        14 => {
            t = format!("a = 1{}b = 2{}", "\n".repeat(n + 1), "\n".repeat(n));
            b = vec![attr("a", num("1")), attr("b", num("2"))];
        }
        15 => {
            let c: String = (0..n).map(|i| if i % 2 == 0 { "# c { \" [\n" } else { "  // d\r\n" }).collect();
            t = format!("{}a = 1\n{}b {{\n{}}}\n{}", c, c, c, c);
            b = vec![attr("a", num("1")), blk("b", vec![], vec![])];
        }
        16 => {
            t = format!("# {}\na = 1 // {}\nb = /* {} */ 2\n", text(n), text(n), text(n));
            b = vec![attr("a", num("1")), attr("b", num("2"))];
        }
        17 => {
            let sp = " ".repeat(n);
            t = format!("{s}a{s}={s}1{s}\n{s}b{s}\"x\"{s}{{{s}\n{s}c{s}={s}[{s}1{s},{s}]{s}\n{s}}}{s}\n{s}", s = sp);
            b = vec![attr("a", num("1")), blk("b", vec![lit("x")], vec![attr("c", ME::Tuple(vec![num("1")]))])];
        }
        18 => {
            for i in 0..n {
                if i % 2 == 0 {
                    t.push_str("b {}\n");
                    b.push(blk("b", vec![], vec![]));
                } else {
                    t.push_str("b x { a = 1 }\n");
                    b.push(blk("b", vec![idl("x")], vec![attr("a", num("1"))]));
                }
            }
        }
        19 => {
            let e: Vec<&str> = (0..n).map(|i| ["\\n", "\\x41", "\\101", "\\u00e9", "\\\"", "\\U0001F600", "z"][i % 7]).collect();
            let x: Vec<&str> = (0..n).map(|i| ["\n", "A", "A", "\u{e9}", "\"", "\u{1F600}", "z"][i % 7]).collect();
            t = format!("a = \"{}\"\nb \"{}\" {{}}\n", e.concat(), e.concat());
            b = vec![attr("a", st(&x.concat())), blk("b", vec![lit(&x.concat())], vec![])];
        }
        20 => {
            t = format!("a = <<-X\n    {}\n  é\n{}X\nb = 1\n", text(n), " ".repeat(n));
            b = vec![attr("a", st(&format!("{}{}\n{}é", " ".repeat(4usize.saturating_sub(n)), text(n), " ".repeat(2usize.saturating_sub(n))))), attr("b", num("1"))];
        }
        21 => {
            for i in 0..n {
                t.push_str(&format!("a{} = <<E\n{}\nE\n", i, i));
                b.push(attr(&format!("a{}", i), st(&i.to_string())));
            }
        }
        22 => {
            for i in 0..n {
                if i % 3 == 0 {
                    t.push_str(&format!("a = {}\n", i));
                    b.push(attr("a", num(&i.to_string())));
                } else {
                    t.push_str(&format!("a \"{}\" {{\n  b {{\n    c = {}\n  }}\n}}\n", i % 5, i));
                    b.push(blk("a", vec![lit(&(i % 5).to_string())], vec![blk("b", vec![], vec![attr("c", num(&i.to_string()))])]));
                }
            }
        }
        // all alike
        23 => {
            t = format!("a = [{}]\n", vec!["1"; n].join(", "));
            b.push(attr("a", ME::Tuple(vec![num("1"); n])));
        }
        24 => {
            t = "b \"x\" {\n  a = 1\n}\n".repeat(n);
            b = vec![blk("b", vec![lit("x")], vec![attr("a", num("1"))]); n];
        }
        25 => {
            t = format!("a = {{\n{}}}\n{}", "  k = 1\n".repeat(n), "c = \"x\"\n".repeat(n));
            b.push(attr("a", obj(vec![("k", num("1")); n])));
            b.extend(vec![attr("c", st("x")); n]);
        }
        // heredocs with one long marker, and lines that are nearly it
        26 => {
            let m = format!("M{}", text(n));
            let near = format!("{m}x\n x{m}\n{c}\n{m} {m}", m = m, c = &m[..m.len() - 1]);
            t = format!("a = <<{m}\n{near}\n{m}\nb = <<-{m}\n    y\n  {m}\nc = [<<{m}\n{m}\n]\nd = <<{m}\n  {m}\ne = 1\n", m = m, near = near);
            b = vec![attr("a", st(&near)), attr("b", st("  y")), attr("c", ME::Tuple(vec![st("")])), attr("d", st("")), attr("e", num("1"))];
        }
        // many comments in every place
        27 => {
            let c: String = (0..n).map(|i| if i % 2 == 0 { "/* } */" } else { " /**/\t" }).collect();
            t = format!("{c}a{c}={c}1{c}\n{c}b{c}\"x\"{c}{{{c}\n{c}c{c}={c}[{c}1{c},{c}2{c}]{c}\n{c}}}{c}\n{c}", c = c);
            b = vec![attr("a", num("1")), blk("b", vec![lit("x")], vec![attr("c", ME::Tuple(vec![num("1"), num("2")]))])];
        }
        _ => {
            let e = "é老😀".repeat(n);
            t = format!("a = \"{}\" # {}\nb \"{}\" {{}}\nc = <<E\n{}\nE\n", e, e, e, e);
            b = vec![attr("a", st(&e)), blk("b", vec![lit(&e)], vec![]), attr("c", st(&e))];
        }
    }
    (t, b)
}

/// A document nested `n` deep.
pub fn deep(kind: usize, n: usize) -> (String, MBody) {
    match kind {
        0 => {
            let t = format!("{}{}", "b {\n".repeat(n), "}\n".repeat(n));
            let mut b: MBody = vec![];
            for _ in 0..n {
                b = vec![blk("b", vec![], b)];
            }
            (t, b)
        }
        1 => {
            let t = format!("{}x = 1\n{}", "b \"l\" m {\n  a = 1\n".repeat(n), "  c = 2\n}\n".repeat(n));
            let mut b: MBody = vec![attr("x", num("1"))];
            for _ in 0..n {
                let mut v = vec![attr("a", num("1"))];
                v.extend(b);
                v.push(attr("c", num("2")));
                b = vec![blk("b", vec![lit("l"), idl("m")], v)];
            }
            (t, b)
        }
        2 => {
            let t = format!("a = {}{}\n", "[".repeat(n + 1), "]".repeat(n + 1));
            let mut e = ME::Tuple(vec![]);
            for _ in 0..n {
                e = ME::Tuple(vec![e]);
            }
            (t, vec![attr("a", e)])
        }
        3 => {
            let t = format!("a = {}1{}\n", "{ k = ".repeat(n), " }".repeat(n));
            let mut e = num("1");
            for _ in 0..n {
                e = obj(vec![("k", e)]);
            }
            (t, vec![attr("a", e)])
        }
        4 => {
            let t = format!("a = {}1{}\n", "(".repeat(n), ")".repeat(n));
            (t, vec![attr("a", num("1"))])
        }
        5 => {
            let t = format!("a = {}\"x\"{}\n", "[1, {\n k = [\n".repeat(n), "\n]\n b = 2\n}, 3]".repeat(n));
            let mut e = st("x");
            for _ in 0..n {
                e = ME::Tuple(vec![num("1"), obj(vec![("k", ME::Tuple(vec![e])), ("b", num("2"))]), num("3")]);
            }
            (t, vec![attr("a", e)])
        }
        _ => {
            // the last level is a block on one line
            let t = format!("{}z {{ a = 1 }}\n{}", "b {\n".repeat(n), "}\n".repeat(n));
            let mut b: MBody = vec![blk("z", vec![], vec![attr("a", num("1"))])];
            for _ in 0..n {
                b = vec![blk("b", vec![], b)];
            }
            (t, b)
        }
    }
}
