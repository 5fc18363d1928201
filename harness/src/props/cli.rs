//! C27: the command line tool.
use crate::explore::*;
use crate::model::clip;
use crate::{gen, ramp, render, Prop};
use ferrous_chloride as fc;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

fn tool() -> String {
    std::env::var("FCMC_CLI").unwrap_or_else(|_| format!("{}/target-cli/debug/fecl", crate::verif_dir()))
}

/// A directory that goes away with everything in it.
struct Scratch(PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    fn new() -> Result<Scratch, String> {
        let p = std::env::temp_dir().join(format!("fcmc-cli-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).map_err(|e| machine(&e))?;
        Ok(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Something is wrong with the machine, not with the tool.
fn machine(e: &dyn std::fmt::Display) -> String {
    eprintln!("ENGINE ERROR: cannot run the tool: {}", e);
    std::process::exit(2);
}

/// Maps print in an order of their own: the lines in braces are put in order, each with the lines
/// that belong to it.
fn canonical(text: &str) -> Vec<String> {
    fn group(lines: &[&str], indent: usize) -> Vec<String> {
        let depth = |l: &str| l.len() - l.trim_start_matches(' ').len();
        let mut out: Vec<Vec<String>> = vec![];
        let mut i = 0;
        while i < lines.len() {
            let mut item = vec![lines[i].to_string()];
            // the lines within, and the line that closes it, which may open again
            while lines[i].ends_with(|c| "([{".contains(c)) {
                let mut j = i + 1;
                while j < lines.len() && depth(lines[j]) > indent {
                    j += 1;
                }
                let inner = group(&lines[i + 1..j], indent + 4);
                item.extend(if lines[i].ends_with('{') { sorted(inner) } else { inner });
                i = j;
                if i == lines.len() {
                    break;
                }
                item.push(lines[i].to_string());
            }
            out.push(item);
            i += 1;
        }
        out.into_iter().map(|x| x.join("\n")).collect()
    }
    fn sorted(mut v: Vec<String>) -> Vec<String> {
        v.sort();
        v
    }
    let lines: Vec<&str> = text.lines().collect();
    group(&lines, 0)
}

enum Expect {
    Print(String),
    Fail,
}

/// What the library makes of the bytes.
fn library(bytes: &[u8], merge: bool) -> Result<Expect, String> {
    let m = if merge { Some(fc::MergeBehaviour::Error) } else { None };
    let s = match std::str::from_utf8(bytes) {
        Ok(s) => s,
        Err(_) => return Ok(Expect::Fail),
    };
    Ok(match guard(|| fc::value::from_str(s, m).map(|v| format!("{:#?}\n", v)))? {
        Ok(t) => Expect::Print(t),
        Err(_) => Expect::Fail,
    })
}

const HOW_IN: usize = 7;
const HOW_OUT: usize = 9;

fn invoke(bytes: &[u8], how_in: usize, how_out: usize, merge: bool, early: bool) -> Result<(u64, bool), String> {
    let dir = Scratch::new()?;
    let input = dir.0.join("input.hcl");
    let output = dir.0.join("out put.txt");
    std::fs::write(&input, bytes).map_err(|e| machine(&e))?;
    let old = "old content that is longer than most of what is written over it\n".repeat(40);
    let mut cmd = Command::new(tool());
    cmd.current_dir(&dir.0).env_clear().env("RUST_BACKTRACE", "0").stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null());
    cmd.arg("parse");
    if !merge && early {
        cmd.arg("--no-merge");
    }
    let mut readable = true;
    let mut pipe = None;
    // an output can be named only after an input
    let mut named = true;
    match how_in {
        0 => {
            cmd.arg("input.hcl");
        }
        1 => {
            cmd.arg(&input);
        }
        2 => {
            cmd.arg("-").stdin(std::fs::File::open(&input).map_err(|e| machine(&e))?);
        }
        3 => {
            named = false;
            cmd.stdin(std::fs::File::open(&input).map_err(|e| machine(&e))?);
        }
        4 => {
            cmd.arg("-").stdin(Stdio::piped());
            pipe = Some(bytes.to_vec());
        }
        5 => {
            readable = false;
            cmd.arg("missing.hcl");
        }
        _ => {
            readable = false;
            cmd.arg(".");
        }
    }
    let mut writable = true;
    let mut file: Option<PathBuf> = None;
    let mut before: Option<Vec<u8>> = None;
    if named {
        match how_out {
            0 => {}
            1 => {
                cmd.arg("-");
            }
            2 => {
                cmd.arg("out put.txt");
                file = Some(output.clone());
            }
            3 | 8 => {
                // shorter and longer than what is written over it
                let old = if how_out == 3 { old } else { old.repeat(130) };
                std::fs::write(&output, &old).map_err(|e| machine(&e))?;
                before = Some(old.into_bytes());
                cmd.arg(&output);
                file = Some(output.clone());
            }
            4 => {
                writable = false;
                cmd.arg("missing/out.txt");
            }
            5 => {
                writable = false;
                cmd.arg("/dev/full");
            }
            6 => {
                writable = false;
                cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| machine(&e))?);
            }
            _ => {
                // over the input itself
                cmd.arg(if how_in == 0 { Path::new("input.hcl") } else { &input });
                file = Some(input.clone());
                before = Some(bytes.to_vec());
            }
        }
    }
    if !merge && !early {
        cmd.arg("--no-merge");
    }
    let mut child = cmd.spawn().map_err(|e| machine(&e))?;
    let feeder = pipe.map(|p| {
        let mut stdin = child.stdin.take();
        std::thread::spawn(move || {
            if let Some(i) = &mut stdin {
                // in pieces that split characters
                let n = if p.len() > 2000 { 4093 } else { 3 };
                for c in p.chunks(n) {
                    if i.write_all(c).and_then(|_| i.flush()).is_err() {
                        break;
                    }
                }
            }
        })
    });
    let out = child.wait_with_output().map_err(|e| machine(&e))?;
    if let Some(f) = feeder {
        let _ = f.join();
    }
    let what = || format!("parse of {:?} (input {}, output {}, merge {})", clip(&String::from_utf8_lossy(bytes)), how_in, how_out, merge);
    let code = out.status.code();
    let show = |b: &[u8]| clip(&String::from_utf8_lossy(b));
    let expect = if readable { library(bytes, merge)? } else { Expect::Fail };
    let exp = match expect {
        Expect::Print(t) if writable => t,
        e => {
            if code != Some(1) {
                return Err(format!("{}: exit status {:?} instead of 1; printed {:?}, {:?}", what(), code, show(&out.stdout), show(&out.stderr)));
            }
            if how_out == 6 && named {
                // there is nowhere to report to but the standard error
                return Ok((3, false));
            }
            let told = String::from_utf8_lossy(&out.stdout).to_string() + &String::from_utf8_lossy(&out.stderr);
            if told.trim().is_empty() {
                return Err(format!("{}: fails without saying so", what()));
            }
            if told.contains("panicked") {
                return Err(format!("{}: panics: {}", what(), clip(&told)));
            }
            if let Some(f) = &file {
                let now = std::fs::read(f).ok();
                if now != before {
                    return Err(format!("{}: fails, but the output file is now {:?}", what(), now.map(|n| show(&n))));
                }
            }
            let stray = std::fs::read_dir(&dir.0).map(|d| d.count()).unwrap_or(0);
            let had = 1 + usize::from(file.as_ref().map_or(false, |f| *f == output) && before.is_some());
            if stray != had {
                return Err(format!("{}: fails, but leaves files behind", what()));
            }
            return Ok((if matches!(e, Expect::Print(_)) { 4 } else { 5 }, true));
        }
    };
    if code != Some(0) {
        return Err(format!("{}: exit status {:?} instead of 0; printed {:?}, {:?}", what(), code, show(&out.stdout), show(&out.stderr)));
    }
    let got = match &file {
        None => out.stdout.clone(),
        Some(f) => {
            if !out.stdout.is_empty() {
                return Err(format!("{}: prints {:?} besides the output file", what(), show(&out.stdout)));
            }
            std::fs::read(f).map_err(|e| format!("{}: no output file: {}", what(), e))?
        }
    };
    let got = String::from_utf8(got).map_err(|_| format!("{}: the output is not UTF-8", what()))?;
    let same = if merge { got.len() == exp.len() && canonical(&got) == canonical(&exp) } else { got == exp };
    if !same {
        return Err(format!("{}: the output is {:?} instead of {:?}", what(), clip(&got), clip(&exp)));
    }
    if how_out != 7 || !named {
        let kept = std::fs::read(&input).map_err(|e| format!("{}: the input is gone: {}", what(), e))?;
        if kept != bytes {
            return Err(format!("{}: the input changed", what()));
        }
    }
    let mut printed = canonical(&exp);
    printed.sort();
    Ok((hash_str(&printed.join("\n")), true))
}

fn inputs(thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for t in [
        "", "\n", "a = 1", "a = 1\n", "a = 1\nb = 2\n", "# c\n", "a = \"é 老虎 😀 \\n \\\"\"\n", "a = <<E\n x\ny\nE\n", "a = [1, 2.5, [], {b = null}]\n", "a {\n b = true\n}\n",
        "a \"x\" {\n}\n", "a \"x\" \"y\" {\n b = 1\n c { d = 2 }\n}\n", "a \"x\" {\n}\na \"y\" {\n}\n", "a {\n b = 1\n}\na {\n b = 2\n}\n",
        // conflicts when merged
        "a = 1\na = 2\n", "a \"x\" {\n}\na \"x\" {\n}\n", "a = 1\na {\n}\n", "a = [1]\na = [2]\n", "a {\n b = 1\n b = 2\n}\n", "a = {b = 1, b = 2}\n", "a = [{b = 1, b = 2}]\n",
        "a \"x\" {\n b = 1\n}\na {\n}\n",
        // rejected
        "a", "a =", "a = \n", "a = [", "a = {", "}", "a {\n", "= 1\n", "a = \"x", "a = \"\\q\"", "a = <<E\nx\n", "a = 1 b = 2\n", "a x {\n}\n", "a = (1)\n", "/*", "\u{feff}a = 1\n", "a = 1\n\u{0}",
        "a = 1\r\nb = \"\\uD800\"\r\n", "a = 1\n]",
    ] {
        v.push(t.as_bytes().to_vec());
    }
    // not UTF-8, at the start, in the middle, at the end, in a comment
    v.push(b"\xff".to_vec());
    v.push(b"a = \"\xff\"\n".to_vec());
    v.push(b"a = 1\n\xc3".to_vec());
    v.push(b"# \xc3\x28\na = 1\n".to_vec());
    v.push(b"a = \"\xed\xa0\x80\"\n".to_vec());
    v.push(b"a = 1\n\xf0\x9f\x98".to_vec());
    v.push("a = \"é\"\n".as_bytes()[..6].to_vec());
    // as the seeds
    for m in gen::seeds() {
        v.push(render::plain(&m).into_bytes());
    }
    for (t, _, _) in gen::values() {
        v.push(format!("v = {}\nw = {}\n", t, t).into_bytes());
    }
    // of sizes around those of buffers
    for n in [100usize, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 200_000] {
        v.push(format!("a = \"{}\"\n", "x".repeat(n - 8)).into_bytes());
        v.push(format!("a = \"x{}\"\n", "é".repeat((n - 9) / 2)).into_bytes());
        if n <= 8193 || thorough {
            v.push(format!("{}a = [\n{}]\n", "# c\n".repeat(n / 16), "1, 2.5,\n".repeat(n / 64)).into_bytes());
        }
    }
    // of a megabyte and more, with what matters at the end
    for n in if thorough { vec![1 << 20, 1 << 22, 1 << 24] } else { vec![1 << 20, 1 << 22] } {
        v.push(format!("#{}\na = 1\n", "c".repeat(n)).into_bytes());
        v.push(format!("#{}\na = 1\n]", "c".repeat(n)).into_bytes());
        if n <= 1 << 20 {
            v.push(format!("a = \"{}\"\nb = \"x\"\n", "é".repeat(n / 2 + 1)).into_bytes());
            v.push(format!("a = <<E\n{}\nE\nb {{\n}}\n", "x\n".repeat(n / 2 + 1)).into_bytes());
        }
    }
    for k in [0, 2, 3, 8, 13, 21] {
        for n in [50, 300] {
            v.push(ramp::flat(k, n).0.into_bytes());
        }
    }
    for k in 0..ramp::DEEP {
        v.push(ramp::deep(k, if thorough { 60 } else { 20 }).0.into_bytes());
    }
    v
}

const NAMES: &[&str] = &["in.hcl", "in", ".in", "a b", " in", "in ", "é老.hcl", "-x", "--no-merge", "parse", "./-", "sub/../in.hcl", "sub//in", "$(in)", "*", "a\nb", "'q'", "\"q\"", "in.hcl.out", "help", "~", "a\\b", "#"];

/// The tool with these arguments, in a directory prepared by `prepare`.
fn run(dir: &Path, args: &[&str], stdin: &[u8], hear: bool) -> Result<(Option<i32>, Vec<u8>, Vec<u8>), String> {
    let mut cmd = Command::new(tool());
    cmd.current_dir(dir).env_clear().env("RUST_BACKTRACE", "0").args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = cmd.spawn().map_err(|e| machine(&e))?;
    if !hear {
        drop(child.stdout.take());
    }
    if let Some(mut i) = child.stdin.take() {
        let _ = i.write_all(stdin);
    }
    let out = child.wait_with_output().map_err(|e| machine(&e))?;
    Ok((out.status.code(), out.stdout, out.stderr))
}

fn named() -> Family {
    Family::new("names", &format!("{} names of input files x {} of output files, the flag in each place or not at all", NAMES.len(), NAMES.len()), |ch, w| {
        let (i, o) = (*ch.pick(NAMES), *ch.pick(NAMES));
        let flag = ch.choose(4);
        let good = !ch.flag();
        ch.note(|| format!("{:?} {:?} flag {} good {}", i, o, flag, good));
        if i == o {
            return obs(0, false);
        }
        let dir = Scratch::new()?;
        std::fs::create_dir(dir.0.join("sub")).map_err(|e| machine(&e))?;
        let text = if good { "a = 1\nb {\n c = \"é\"\n}\n" } else { "a = 1\nb {\n c = \"é\"\n}\n}" };
        std::fs::write(dir.0.join(i), text).map_err(|e| machine(&e))?;
        let dashed = i.starts_with('-') || o.starts_with('-');
        let mut args = vec!["parse"];
        if flag == 1 {
            args.push("--no-merge");
        }
        if dashed {
            args.push("--");
        }
        args.push(i);
        if flag == 2 && !dashed {
            args.push("--no-merge");
        }
        args.push(o);
        if flag == 3 && !dashed {
            args.push("--no-merge");
        }
        let merge = !args.iter().any(|a| *a == "--no-merge" && flag > 0) || (flag > 1 && dashed);
        let (code, out, err) = run(&dir.0, &args, b"z = 26\n", true)?;
        let show = || format!("parse {:?} exits with {:?}, prints {:?}, {:?}", args, code, clip(&String::from_utf8_lossy(&out)), clip(&String::from_utf8_lossy(&err)));
        let over = dir.0.join(i).canonicalize().ok().is_some() && dir.0.join(i).canonicalize().ok() == dir.0.join(o).canonicalize().ok();
        let got = std::fs::read_to_string(dir.0.join(o)).ok();
        match library(text.as_bytes(), merge)? {
            Expect::Print(t) => {
                let same = got.as_ref().map_or(false, |g| canonical(g) == canonical(&t) && (merge || *g == t));
                if code != Some(0) || !same || !out.is_empty() {
                    return Err(format!("{}; the output file has {:?}", show(), got));
                }
            }
            Expect::Fail => {
                if code != Some(1) || (got.is_some() && !over) || err.is_empty() {
                    return Err(format!("{}; the output file has {:?}", show(), got));
                }
            }
        }
        if !over && std::fs::read_to_string(dir.0.join(i)).ok().as_deref() != Some(text) {
            return Err(format!("{}; the input changed", show()));
        }
        obs_with(hash_str(&format!("{:?}", args)), true, w, || format!("{:?}", args))
    })
    .limit(120)
}

/// Outputs that cannot be opened or written, and links.
fn awkward() -> Family {
    Family::new("awkward outputs", "a standard output nobody reads, outputs that are a directory, a link to a file, a link to nothing, a link to a directory, below a file, an empty name; each with 4 inputs, merged or not", |ch, w| {
        let how = ch.choose(8);
        let merge = ch.flag();
        let text = *ch.pick(&["a = 1\n", "a = [\n", "a = 1\na = 2\n", ""]);
        ch.note(|| format!("{} {} {:?}", how, merge, text));
        let dir = Scratch::new()?;
        let p = |n: &str| dir.0.join(n);
        let fine = |r: std::io::Result<()>| r.map_err(|e| machine(&e));
        fine(std::fs::write(p("in"), text))?;
        fine(std::fs::create_dir(p("sub")))?;
        fine(std::fs::write(p("file"), "old\n".repeat(100)))?;
        fine(std::os::unix::fs::symlink("file", p("link")))?;
        fine(std::os::unix::fs::symlink("new", p("dangling")))?;
        fine(std::os::unix::fs::symlink("sub", p("dirlink")))?;
        // what is written where, when it can be
        let (o, at) = match how {
            0 => ("-", None),
            1 => ("sub", None),
            2 => ("link", Some("file")),
            3 => ("dangling", Some("new")),
            4 => ("dirlink", None),
            5 => ("file/out", None),
            6 => ("sub/", None),
            _ => ("sub/out", Some("sub/out")),
        };
        let mut args = vec!["parse", "-", o];
        if !merge {
            args.push("--no-merge");
        }
        let before = at.and_then(|a| std::fs::read_to_string(p(a)).ok());
        let (code, out, err) = run(&dir.0, &args, text.as_bytes(), how != 0)?;
        let after = at.and_then(|a| std::fs::read_to_string(p(a)).ok());
        let show = || format!("parse {:?} of {:?} exits with {:?}, prints {:?}, {:?}, writes {:?}", args, text, code, String::from_utf8_lossy(&out), String::from_utf8_lossy(&err), after);
        let ok = match (library(text.as_bytes(), merge)?, at) {
            (Expect::Print(t), Some(_)) => code == Some(0) && after.as_ref().map_or(false, |a| canonical(a) == canonical(&t)) && out.is_empty(),
            _ => code == Some(1) && before == after && !err.is_empty() && !String::from_utf8_lossy(&err).contains("panicked"),
        };
        if !ok {
            return Err(show());
        }
        obs_with(hash_str(&show()), true, w, show)
    })
    .limit(120)
}

/// What is not an invocation of the tool.
fn misuse() -> Family {
    const ARGS: &[&str] = &["parse", "in", "out", "more", "--no-merge", "--merge", "print", "-q"];
    Family::new("arguments", "every sequence of at most 4 of 8 arguments", |ch, w| {
        let n = ch.range(0, 4);
        let args: Vec<&str> = (0..n).map(|_| *ch.pick(ARGS)).collect();
        ch.note(|| format!("{:?}", args));
        let dir = Scratch::new()?;
        std::fs::write(dir.0.join("in"), "a = 1\na {\n}\n").map_err(|e| machine(&e))?;
        let (code, out, err) = run(&dir.0, &args, b"b = 1\n", true)?;
        // the dialect of the command line: "parse", at most two paths, at most one flag
        let rest = args.get(1..).unwrap_or(&[]);
        let paths: Vec<&&str> = rest.iter().filter(|a| !a.starts_with('-')).collect();
        let flags = rest.iter().filter(|a| a.starts_with('-')).count();
        let valid = args.first() == Some(&"parse") && paths.len() <= 2 && flags <= 1 && rest.iter().all(|a| !a.starts_with('-') || *a == "--no-merge");
        let merge = flags == 0;
        let input = paths.first().map_or("-", |p| **p);
        let text: Option<&str> = match input {
            "-" => Some("b = 1\n"),
            "in" => Some("a = 1\na {\n}\n"),
            _ => None,
        };
        let to = paths.get(1).map(|p| **p);
        let exp = match text {
            Some(t) if valid => library(t.as_bytes(), merge)?,
            _ => Expect::Fail,
        };
        let show = || format!("{:?} exits with {:?}, prints {:?}, {:?}", args, code, clip(&String::from_utf8_lossy(&out)), clip(&String::from_utf8_lossy(&err)));
        let mut files: Vec<String> = std::fs::read_dir(&dir.0).map_err(|e| machine(&e))?.flatten().map(|f| f.file_name().to_string_lossy().into_owned()).collect();
        files.sort();
        let ok = match exp {
            Expect::Print(t) => {
                let got = match to {
                    None => Some(String::from_utf8_lossy(&out).into_owned()),
                    Some(f) => std::fs::read_to_string(dir.0.join(f)).ok(),
                };
                code == Some(0) && got.map_or(false, |g| canonical(&g) == canonical(&t)) && (to.is_none() || out.is_empty())
            }
            Expect::Fail => code == Some(1) && files == ["in"] && !(out.is_empty() && err.is_empty()),
        };
        if !ok {
            return Err(show());
        }
        obs_with(hash_str(&show()), valid, w, show)
    })
    .limit(120)
}

pub const C27: Prop = Prop {
    id: "C27",
    rule: "an execution writes an input into a scratch directory, runs the built tool on it in one way of giving input, output and the merge flag, and compares exit status, streams and files with what the library makes of the same bytes; non-trivial: all, except where the standard output cannot be written",
    assumptions: &["what is to be printed is the printed form of the library's result (C18 and C19 check the result itself); maps print in any order", "/dev/full stands for an output that cannot be written"],
    families: |t| {
        let a = inputs(t);
        let b = a.clone();
        vec![
            Family::new("invocations", &format!("each of {} inputs x {} ways to give the input x {} ways to give the output x merging or not (the flag before or after the paths)", a.len(), HOW_IN, HOW_OUT), move |ch, w| {
                let i = ch.choose(a.len());
                let (x, y) = (ch.choose(HOW_IN), ch.choose(HOW_OUT));
                let (merge, early) = match ch.choose(3) {
                    0 => (true, false),
                    1 => (false, false),
                    _ => (false, true),
                };
                ch.note(|| format!("{:?} input {} output {} merge {}", clip(&String::from_utf8_lossy(&a[i])), x, y, merge));
                // an input that is not read need not vary; large ones take long
                if (x >= 5 && i > 3) || (x == 3 && y > 0) || (!t && a[i].len() > 4000 && !([0, 4].contains(&x) && [1, 3].contains(&y) && !early)) {
                    return obs(0, false);
                }
                let (h, nt) = invoke(&a[i], x, y, merge, early)?;
                obs_with(h, nt, w, || format!("{:?} input {} output {} merge {}", clip(&String::from_utf8_lossy(&a[i])), x, y, merge))
            })
            .limit(120),
            Family::new("texts", &format!("every text of at most {} of 12 lines, from a file to a file, merged and not", if t { 4 } else { 3 }), move |ch, w| {
                let s = gen::word(ch, &["a = 1\n", "a {\n", "}\n", "a \"x\" {\n", "b = [1, \"é\"]\n", "a = {b = 1}\n", "a \"x\" \"y\" {}\n", "b = <<E\nx\nE\n", "c = \"\\q\"\n", "a {}\n", "# c\n", "b = null\n"], if t { 4 } else { 3 });
                let merge = ch.flag();
                ch.note(|| format!("{:?} merge {}", s, merge));
                let (h, nt) = invoke(s.as_bytes(), 0, 3, merge, true)?;
                obs_with(h, nt, w, || format!("{:?} merge {}", s, merge))
            })
            .limit(120),
            Family::new("prefixes", "every prefix (of bytes) of 10 inputs, by way of standard input and output", move |ch, w| {
                let long: Vec<&Vec<u8>> = b.iter().filter(|x| x.len() > 30 && x.len() < 200).take(10).collect();
                let x = *ch.pick(&long);
                let n = ch.range(0, x.len());
                let merge = ch.flag();
                ch.note(|| format!("{:?} merge {}", String::from_utf8_lossy(&x[..n]), merge));
                let (h, nt) = invoke(&x[..n], 4, 1, merge, false)?;
                obs_with(h, nt, w, || format!("{:?} merge {}", String::from_utf8_lossy(&x[..n]), merge))
            })
            .limit(120),
            named(),
            awkward(),
            misuse(),
        ]
    },
};
