mod explore;
mod gen;
mod hints;
mod model;
mod props;
mod ramp;
mod refparse;
mod render;
mod reflegacy;
mod target;
mod zygote;

// the macros of the library refer to it
pub use ferrous_chloride::Error;
use explore::{Family, Stats};
use std::io::Write;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// How executions are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: fn(thorough: bool) -> Vec<Family>,
}

struct Current {
    prop: &'static Prop,
    tier: String,
    started: Instant,
}

/// The tasks to run before the violation that is being reported, if it needs them
static HISTORY: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);

fn on_a_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        let b = std::thread::Builder::new().stack_size(64 << 20);
        b.spawn_scoped(sc, f).expect("engine: cannot spawn").join().expect("engine: lost a thread")
    })
}

fn commas(t: &[u32]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

static CURRENT: Mutex<Option<Current>> = Mutex::new(None);

fn verif_dir() -> String {
    std::env::var("FCMC_DIR").unwrap_or_else(|_| "/verif".into())
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(id: &str, family: &str, trace: &[u32], message: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let fam: String = family.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let path = format!("{}/{}-{}.txt", dir, id, fam);
    let before: Vec<String> = HISTORY.lock().map(|h| h.iter().map(|t| commas(t)).collect()).unwrap_or_default();
    let text = format!(
        "property {}\nfamily {}\n{}trace {}\n# replay with: fcmc replay {} {}\n{}\n",
        id,
        family,
        if before.is_empty() { String::new() } else { format!("history {}\n", before.join(";")) },
        commas(trace),
        id,
        path,
        message
    );
    let _ = std::fs::write(&path, text);
    path
}

fn report_violation(id: &str, family: &str, trace: &[u32], message: &str) {
    let path = write_replay(id, family, trace, message);
    println!("family {}: {}", family, message.chars().take(3000).collect::<String>());
    println!("VIOLATION property={} replay={}", id, path);
    let _ = std::io::stdout().flush();
}

/// Called by the watchdog when an execution does not end.
pub fn report_hang(f: &Family, prefix: &[u32]) -> ! {
    let g = CURRENT.lock().unwrap();
    if let Some(c) = &*g {
        let m = format!("an execution did not end within {} s", f.limit_s);
        report_violation(c.prop.id, &f.name, prefix, &m);
        evidence(c.prop, &c.tier, &[], c.started.elapsed().as_secs_f64(), 1);
    }
    std::process::exit(1)
}

fn evidence(p: &Prop, tier: &str, stats: &[(String, String, Stats)], wall: f64, violations: u32) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut ex, mut tr, mut nt, mut st, mut capped) = (0, 0, 0, 0, false);
    let mut fams = vec![];
    let mut samples = vec![];
    for (name, bound, s) in stats {
        ex += s.executions;
        tr += s.transitions;
        nt += s.nontrivial;
        st += s.distinct;
        capped |= s.capped;
        fams.push(format!(
            "{{\"family\":{},\"bound\":{},\"executions\":{},\"transitions\":{},\"nontrivial\":{},\"distinct_states\":{},\"complete\":{},\"wall_s\":{:.2}}}",
            json(name), json(bound), s.executions, s.transitions, s.nontrivial, s.distinct, !s.capped, s.wall
        ));
        for x in s.samples.iter().rev().take(2) {
            samples.push(json(&format!("{}: {}", name, x.chars().take(300).collect::<String>())));
        }
    }
    if samples.is_empty() {
        samples.push(json("none: the run stopped at a violation"));
    }
    samples.truncate(60);
    let assume: Vec<String> = p.assumptions.iter().map(|a| json(a)).collect();
    let text = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":\"model_checking\",\n \"coverage\":{{\n  \"states\":{},\n  \"transitions\":{},\n  \"traces_validated_against_impl\":{},\n  \"nontrivial_traces\":{},\n  \"exhaustive\":{},\n  \"rule\":{},\n  \"families\":[\n   {}\n  ],\n  \"samples\":[\n   {}\n  ]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
        json(p.id), json(tier), seed, st, tr, ex, nt, !capped && violations == 0 && !stats.is_empty(), json(p.rule),
        fams.join(",\n   "), samples.join(",\n   "), assume.join(","), wall, violations
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, p.id), text).is_err() {
        eprintln!("cannot write the evidence");
        std::process::exit(2);
    }
}

fn find(id: &str) -> &'static Prop {
    match props::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn worker(id: &str, tier: &str, slot_file: &str) -> i32 {
    let p = find(id);
    let started = Instant::now();
    *CURRENT.lock().unwrap() = Some(Current { prop: p, tier: tier.into(), started });
    explore::slots::open(slot_file);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let budget = if tier == "thorough" { 3000 } else { 420 };
    let deadline = Some(started + Duration::from_secs(budget));
    let mut all = vec![];
    let only = std::env::var("FCMC_FAMILY").ok();
    for (i, f) in (p.families)(tier == "thorough").iter().enumerate() {
        if let Some(o) = &only {
            if !f.name.starts_with(o.as_str()) {
                continue;
            }
        }
        let (st, found) = explore::explore(f, i as u32, threads, deadline);
        println!(
            "{} {}: {} executions, {} transitions, {} states, {} non-trivial, {:.1} s{}",
            p.id,
            f.name,
            st.executions,
            st.transitions,
            st.distinct,
            st.nontrivial,
            st.wall,
            if st.capped { " (capped)" } else { "" }
        );
        if let Some(v) = found {
            // The same choices must fail again before the failure is believed: by themselves, or
            // else after everything that the thread which found it had run before.
            let mut history = vec![];
            let alone = (0..2).all(|_| {
                let t = v.trace.clone();
                on_a_thread(|| explore::run_one(f, t, true).1.is_err())
            });
            if !alone {
                let again = on_a_thread(|| explore::run_history(f, &v.history).is_some());
                if !again && p.id == "C29" {
                    // Executions are deterministic as long as the calls are
                    println!("it does not fail again: the result depends on more than what was called before on its thread");
                } else if !again {
                    eprintln!("ENGINE ERROR: the failure of {} did not repeat: {}", f.name, v.message);
                    return 2;
                }
                if again {
                    println!("it takes the executions that come before it to fail");
                    history = v.history.clone();
                }
            }
            *HISTORY.lock().unwrap() = history;
            report_violation(p.id, &v.family, &v.trace, &v.message);
            all.push((f.name.clone(), f.bound.clone(), st));
            evidence(p, tier, &all, started.elapsed().as_secs_f64(), 1);
            return 1;
        }
        all.push((f.name.clone(), f.bound.clone(), st));
    }
    evidence(p, tier, &all, started.elapsed().as_secs_f64(), 0);
    0
}

fn single(id: &str, tier: &str, fam: usize, trace: Vec<u32>) -> i32 {
    let p = find(id);
    let fs = (p.families)(tier == "thorough");
    let f = match fs.get(fam) {
        Some(f) => f,
        None => return 2,
    };
    explore::VERBOSE.store(true, std::sync::atomic::Ordering::SeqCst);
    let v = on_a_thread(|| explore::run_one(f, trace, true).1);
    match v {
        Ok(o) => {
            println!("held: {}", o.sample.unwrap_or_default());
            0
        }
        Err(m) => {
            println!("failed: {}", m);
            1
        }
    }
}

fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn run(id: &str, tier: &str) -> i32 {
    let p = find(id);
    let started = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let slot_file = format!("{}/fcmc-slots-{}", std::env::temp_dir().display(), std::process::id());
    let st = std::process::Command::new(&exe).args(["worker", id, tier, &slot_file]).status();
    let noted = explore::slots::read(&slot_file);
    let _ = std::fs::remove_file(&slot_file);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the worker: {}", e);
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    // The process was brought down: find the execution that does it.
    eprintln!("the worker ended with {}", st);
    let fs = (p.families)(tier == "thorough");
    for (fam, prefix) in noted {
        let t: Vec<String> = prefix.iter().map(|x| x.to_string()).collect();
        let out = std::process::Command::new(&exe)
            .args(["single", id, tier, &fam.to_string(), &t.join(",")])
            .output();
        if let Ok(o) = out {
            use std::os::unix::process::ExitStatusExt;
            let sig = o.status.signal();
            if o.status.code().is_none() && sig != Some(9) && sig != Some(15) {
                let name = fs.get(fam as usize).map(|f| f.name.clone()).unwrap_or_default();
                let m = format!(
                    "the process was ended by signal {:?} ({})\n{}",
                    sig,
                    String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>(),
                    String::from_utf8_lossy(&o.stdout).chars().take(2000).collect::<String>()
                );
                report_violation(id, &name, &prefix, &m);
                evidence(p, tier, &[], started.elapsed().as_secs_f64(), 1);
                return 1;
            }
        }
    }
    eprintln!("ENGINE ERROR: the worker died and no single execution reproduces it");
    2
}

fn replay(id: &str, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("cannot read the replay file");
    let mut fam = String::new();
    let mut trace = vec![];
    let mut history: Vec<Vec<u32>> = vec![];
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("history ") {
            history = x.split(';').map(parse_trace).collect();
        } else if let Some(x) = l.strip_prefix("family ") {
            fam = x.to_string();
        } else if let Some(x) = l.strip_prefix("trace ") {
            trace = parse_trace(x);
            break;
        }
    }
    for tier in ["quick", "thorough"] {
        let fs = (find(id).families)(tier == "thorough");
        if let Some(i) = fs.iter().position(|f| f.name == fam) {
            if !history.is_empty() {
                return match on_a_thread(|| explore::run_history(&fs[i], &history)) {
                    None => 0,
                    Some((t, m)) => {
                        println!("failed at {}: {}", commas(&t), m);
                        1
                    }
                };
            }
            return single(id, tier, i, trace);
        }
    }
    2
}

fn parse_trace(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).filter_map(|x| x.trim().parse().ok()).collect()
}

fn main() {
    explore::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s: Vec<&str> = a.iter().map(String::as_str).collect();
    if s.get(2) == Some(&"C29") {
        zygote::start(8, props::fresh_call);
    }
    let code = match s[1..] {
        ["run", id, tier] => run(id, tier),
        ["worker", id, tier, slots] => {
            limit_memory();
            worker(id, tier, slots)
        }
        ["single", id, tier, fam, trace] => {
            limit_memory();
            single(id, tier, fam.parse().unwrap_or(0), parse_trace(trace))
        }
        ["replay", id, file] => replay(id, file),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: fcmc run|replay|list");
            2
        }
    };
    std::process::exit(code)
}
