//! Stateless exhaustive exploration: an execution is a closure that asks a `Chooser` for every
//! decision; the explorer runs it on every sequence of decisions (depth first, by replaying
//! prefixes), optionally bounding the number of deviations from the default answer.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static VERBOSE: AtomicBool = AtomicBool::new(false);

pub struct Chooser {
    prefix: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    dev_left: u32,
}

impl Chooser {
    fn new(prefix: Vec<u32>, dev: u32) -> Self {
        Chooser { prefix, trace: Vec::new(), dev_left: dev }
    }
    /// A free choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "engine: empty choice");
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("engine: diverging replay (choice {} of {} at {})", c, n, i);
        }
        self.trace.push((c, n as u32));
        c as usize
    }
    /// A choice whose non-default answers each use up one deviation.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.dev_left == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn pick_dev<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.deviate(xs.len());
        &xs[i]
    }
    /// A number in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    /// Says what is about to be run (shown when a single execution is replayed).
    pub fn note<F: FnOnce() -> String>(&self, f: F) {
        if VERBOSE.load(Ordering::Relaxed) {
            println!("INPUT {}", f());
        }
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
}

/// What one execution observed.
pub struct Obs {
    /// Hash of the observed outcome (to count distinct outcomes).
    pub class: u64,
    /// Whether the execution exercised the property's antecedent.
    pub nontrivial: bool,
    /// One line describing the case (made lazily).
    pub sample: Option<String>,
}

pub type Verdict = Result<Obs, String>;

pub fn obs(class: u64, nontrivial: bool) -> Verdict {
    Ok(Obs { class, nontrivial, sample: None })
}

/// The same with a line describing the case.
pub fn obs_with(class: u64, nontrivial: bool, want: bool, f: impl FnOnce() -> String) -> Verdict {
    Ok(Obs { class, nontrivial, sample: if want { Some(crate::model::clip(&f())) } else { None } })
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub type Exec = Box<dyn Fn(&mut Chooser, bool) -> Verdict + Send + Sync>;

pub struct Family {
    pub name: String,
    pub bound: String,
    pub dev: u32,
    pub limit_s: u64,
    /// How many hash seeds each execution is run with (0: whatever the thread has)
    pub orders: u32,
    pub run: Exec,
}

impl Family {
    pub fn new<F>(name: &str, bound: &str, run: F) -> Family
    where
        F: Fn(&mut Chooser, bool) -> Verdict + Send + Sync + 'static,
    {
        Family { name: name.into(), bound: bound.into(), dev: 0, limit_s: 30, orders: 0, run: Box::new(run) }
    }
    pub fn dev(mut self, d: u32) -> Self {
        self.dev = d;
        self
    }
    /// Makes the iteration order of hash maps part of the execution: the first choice is one of `n`
    /// hash seeds, and the execution runs on a thread of its own that starts from that seed.
    pub fn orders(mut self, n: u32) -> Self {
        self.orders = n;
        self
    }
    pub fn limit(mut self, s: u64) -> Self {
        self.limit_s = s;
        self
    }
}

pub struct Found {
    pub family: String,
    pub trace: Vec<u32>,
    pub message: String,
    /// The tasks that the thread which found it had been through, this one included.
    pub history: Vec<Vec<u32>>,
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub capped: bool,
    pub samples: Vec<String>,
    pub wall: f64,
}

pub mod slots {
    //! A shared file in which each worker notes the execution it is about to start, so that the
    //! parent can tell which one brought the process down.
    use std::sync::atomic::{AtomicPtr, Ordering};
    pub const SLOT: usize = 1 << 16;
    pub const COUNT: usize = 16;
    static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    pub fn open(path: &str) {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path);
        let f = match f {
            Ok(f) => f,
            Err(_) => return,
        };
        if f.set_len((SLOT * COUNT) as u64).is_err() {
            return;
        }
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SLOT * COUNT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            );
            if p != libc::MAP_FAILED {
                BASE.store(p as *mut u8, Ordering::SeqCst);
            }
        }
    }
    pub fn note(slot: usize, family: u32, prefix: &[u32]) {
        let b = BASE.load(Ordering::Relaxed);
        if b.is_null() || slot >= COUNT {
            return;
        }
        let n = prefix.len().min(SLOT / 4 - 4);
        unsafe {
            let p = b.add(slot * SLOT) as *mut u32;
            *p = 0;
            *p.add(1) = family;
            *p.add(2) = n as u32;
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), p.add(3), n);
            std::sync::atomic::compiler_fence(Ordering::SeqCst);
            *p = 1;
        }
    }
    pub fn clear(slot: usize) {
        let b = BASE.load(Ordering::Relaxed);
        if b.is_null() || slot >= COUNT {
            return;
        }
        unsafe { *(b.add(slot * SLOT) as *mut u32) = 0 }
    }
    pub fn read(path: &str) -> Vec<(u32, Vec<u32>)> {
        let data = std::fs::read(path).unwrap_or_default();
        let mut out = vec![];
        for s in data.chunks(SLOT) {
            if s.len() < 16 {
                continue;
            }
            let w = |i: usize| u32::from_le_bytes([s[4 * i], s[4 * i + 1], s[4 * i + 2], s[4 * i + 3]]);
            if w(0) == 1 {
                let n = (w(2) as usize).min(SLOT / 4 - 4);
                out.push((w(1), (0..n).map(|i| w(3 + i)).collect()));
            }
        }
        out
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        } else {
            default(info)
        }
    }));
}

/// Runs a closure; a panic becomes an error naming where it came from.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f, false)
}

/// The same where a panic that names the caller is the library's (indexing blames its caller).
pub fn guard_call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f, true)
}

fn guarded<T>(f: impl FnOnce() -> T, here: bool) -> Result<T, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") && !here {
                eprintln!("ENGINE ERROR: {} at {}", msg, loc);
                std::process::exit(2);
            }
            Err(format!("panicked: {} (at {})", msg.chars().take(300).collect::<String>(), loc))
        }
    }
}

pub fn run_one(f: &Family, prefix: Vec<u32>, sample: bool) -> (Chooser, Verdict) {
    let mut ch = Chooser::new(prefix, f.dev);
    let go = |ch: &mut Chooser| match guard(|| (f.run)(ch, sample)) {
        Ok(v) => v,
        Err(e) => Err(e),
    };
    if f.orders == 0 {
        let v = go(&mut ch);
        return (ch, v);
    }
    let seed = ch.choose(f.orders as usize) as u64;
    let ch2 = &mut ch;
    let v = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, move || {
                hashing::seed(seed);
                go(ch2)
            })
            .expect("engine: cannot spawn")
            .join()
            .expect("engine: lost a thread")
    });
    (ch, v)
}

/// Runs the executions of some tasks in order on the calling thread, until one fails.
pub fn run_history(f: &Family, tasks: &[Vec<u32>]) -> Option<(Vec<u32>, String)> {
    let mut ex = 0u64;
    for task in tasks {
        let mut prefix = task.clone();
        loop {
            let (ch, v) = run_one(f, prefix, ex % 4001 == 7);
            ex += 1;
            if let Err(m) = v {
                return Some((ch.trace.iter().map(|x| x.0).collect(), m));
            }
            let mut tr = ch.trace;
            while tr.len() > task.len() && tr[tr.len() - 1].0 + 1 >= tr[tr.len() - 1].1 {
                tr.pop();
            }
            if tr.len() <= task.len() {
                break;
            }
            let l = tr.len() - 1;
            tr[l].0 += 1;
            prefix = tr.iter().map(|x| x.0).collect();
        }
    }
    None
}

/// Everything that a generator makes of some choices.
pub fn all<T>(dev: u32, f: impl Fn(&mut Chooser) -> T) -> Vec<T> {
    let mut out = vec![];
    let mut prefix = vec![];
    loop {
        let mut ch = Chooser::new(prefix, dev);
        out.push(f(&mut ch));
        let mut tr = ch.trace;
        while tr.last().map_or(false, |l| l.0 + 1 >= l.1) {
            tr.pop();
        }
        match tr.last_mut() {
            None => return out,
            Some(l) => l.0 += 1,
        }
        prefix = tr.iter().map(|x| x.0).collect();
    }
}

pub mod hashing {
    //! The keys of the standard library's hash maps come from here (it asks `getrandom`, which can
    //! be interposed), so that their iteration order is a function of a seed and of the number of
    //! maps that the thread has made.
    use std::cell::Cell;
    thread_local! {
        static SEED: Cell<u64> = const { Cell::new(0) };
    }
    /// To be called before the thread makes its first hash map.
    pub fn seed(s: u64) {
        SEED.with(|c| c.set(s << 32));
    }
    #[no_mangle]
    pub extern "C" fn getrandom(buffer: *mut u8, length: usize, _flags: u32) -> isize {
        for i in 0..length {
            let mut z = SEED.with(|c| {
                c.set(c.get() + 1);
                c.get()
            });
            z = z.wrapping_mul(0x9e3779b97f4a7c15);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            unsafe { *buffer.add(i) = (z ^ (z >> 31)) as u8 };
        }
        length as isize
    }
}

struct Beat {
    start_ms: AtomicU64,
    prefix: Mutex<Vec<u32>>,
}

impl Beat {
    fn mark(&self, epoch: Instant, prefix: &[u32]) {
        if let Ok(mut p) = self.prefix.lock() {
            p.clear();
            p.extend_from_slice(prefix);
        }
        self.start_ms.store(epoch.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    fn idle(&self) {
        self.start_ms.store(0, Ordering::SeqCst);
    }
}

const CLASS_CAP: usize = 1_500_000;

/// Explores a family exhaustively. Returns what was covered and the violation found, if any.
pub fn explore(f: &Family, fam_idx: u32, threads: usize, deadline: Option<Instant>) -> (Stats, Option<Found>) {
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let busy = AtomicUsize::new(1);
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let totals: Mutex<(u64, u64, u64)> = Mutex::new((0, 0, 0));
    let classes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let beats: Vec<Beat> = (0..threads)
        .map(|_| Beat { start_ms: AtomicU64::new(0), prefix: Mutex::new(vec![]) })
        .collect();
    let epoch = Instant::now();
    let tasks_out: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        // Watchdog: an execution that does not end is reported from here
        {
            let (beats, busy) = (&beats, &busy);
            sc.spawn(move || {
                while busy.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = epoch.elapsed().as_millis() as u64;
                    for b in beats.iter() {
                        let s = b.start_ms.load(Ordering::SeqCst);
                        if s != 0 && now > s + f.limit_s * 1000 {
                            let p = b.prefix.lock().map(|p| p.clone()).unwrap_or_default();
                            crate::report_hang(f, &p);
                        }
                    }
                }
            });
        }
        // Expand the top of the choice tree into tasks.
        let (tasks_out, beats) = (&tasks_out, &beats);
        let expander = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || {
                let t = expand(f, threads * 48, |p| {
                    slots::note(0, fam_idx, p);
                    beats[0].mark(epoch, p);
                });
                slots::clear(0);
                beats[0].idle();
                *tasks_out.lock().unwrap() = t;
            })
            .expect("engine: cannot spawn");
        if expander.join().is_err() {
            eprintln!("ENGINE ERROR: expansion failed");
            std::process::exit(2);
        }
        let tasks: Vec<Vec<u32>> = tasks_out.lock().unwrap().clone();
        let tasks: &Vec<Vec<u32>> = Box::leak(Box::new(tasks));
        busy.store(threads, Ordering::SeqCst);
        for w in 0..threads {
            let (next, stop, found, totals, classes, samples, capped, busy) =
                (&next, &stop, &found, &totals, &classes, &samples, &capped, &busy);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let (mut ex, mut nodes, mut nt) = (0u64, 0u64, 0u64);
                    let mut local: HashSet<u64> = HashSet::new();
                    let mut taken: Vec<usize> = vec![];
                    'outer: loop {
                        let t = next.fetch_add(1, Ordering::SeqCst);
                        if t >= tasks.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        taken.push(t);
                        let fixed = tasks[t].len();
                        let mut prefix = tasks[t].clone();
                        let mut new_from = fixed;
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if let Some(d) = deadline {
                                if ex & 63 == 0 && Instant::now() > d {
                                    capped.store(true, Ordering::SeqCst);
                                    break 'outer;
                                }
                            }
                            slots::note(w, fam_idx, &prefix);
                            beats[w].mark(epoch, &prefix);
                            let want = ex % 4001 == 7 || (w == 0 && ex < 2);
                            let (ch, v) = run_one(f, prefix, want);
                            ex += 1;
                            nodes += (ch.trace.len().saturating_sub(new_from)) as u64;
                            match v {
                                Ok(o) => {
                                    if o.nontrivial {
                                        nt += 1;
                                    }
                                    if local.len() < CLASS_CAP {
                                        local.insert(o.class);
                                    }
                                    if let Some(s) = o.sample {
                                        if let Ok(mut ss) = samples.lock() {
                                            if ss.len() < 6 && o.nontrivial || ss.len() < 2 {
                                                ss.push(s);
                                            }
                                        }
                                    }
                                }
                                Err(m) => {
                                    let trace: Vec<u32> = ch.trace.iter().map(|x| x.0).collect();
                                    let mut g = found.lock().unwrap();
                                    let better = match &*g {
                                        None => true,
                                        Some(o) => o.trace.len() > trace.len(),
                                    };
                                    if better {
                                        let history = taken.iter().map(|t| tasks[*t].clone()).collect();
                                        *g = Some(Found { family: f.name.clone(), trace, message: m, history });
                                    }
                                    stop.store(true, Ordering::SeqCst);
                                    break 'outer;
                                }
                            }
                            // Backtrack. Once the deviation budget is used, `deviate` records no
                            // choice, so that every alternative recorded is affordable.
                            let mut tr = ch.trace;
                            loop {
                                if tr.len() <= fixed {
                                    tr.clear();
                                    break;
                                }
                                let l = tr.len() - 1;
                                let (c, n) = tr[l];
                                if c + 1 < n {
                                    tr[l].0 = c + 1;
                                    break;
                                }
                                tr.pop();
                            }
                            if tr.is_empty() {
                                break;
                            }
                            new_from = tr.len() - 1;
                            prefix = tr.iter().map(|x| x.0).collect();
                        }
                    }
                    slots::clear(w);
                    beats[w].idle();
                    {
                        let mut g = totals.lock().unwrap();
                        g.0 += ex;
                        g.1 += nodes;
                        g.2 += nt;
                    }
                    classes.lock().unwrap().extend(local);
                    busy.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("engine: cannot spawn");
        }
    });
    let tasks = tasks_out.into_inner().unwrap();
    let t = totals.into_inner().unwrap();
    stats.executions = t.0;
    stats.transitions = t.1 + tree_nodes(&tasks);
    stats.nontrivial = t.2;
    stats.distinct = classes.into_inner().unwrap().len() as u64;
    stats.capped = capped.load(Ordering::SeqCst);
    stats.samples = samples.into_inner().unwrap();
    stats.wall = t0.elapsed().as_secs_f64();
    (stats, found.into_inner().unwrap())
}

/// Number of edges of the tree spanned by the task prefixes.
fn tree_nodes(tasks: &[Vec<u32>]) -> u64 {
    let mut seen: HashSet<&[u32]> = HashSet::new();
    for t in tasks {
        for i in 1..=t.len() {
            seen.insert(&t[..i]);
        }
    }
    seen.len() as u64
}

fn expand<N: Fn(&[u32])>(f: &Family, want: usize, note: N) -> Vec<Vec<u32>> {
    let mut level: Vec<Vec<u32>> = vec![vec![]];
    let mut leaves: Vec<Vec<u32>> = vec![];
    let t0 = Instant::now();
    for _ in 0..12 {
        if level.len() + leaves.len() >= want || level.is_empty() {
            break;
        }
        let mut next = vec![];
        for p in &level {
            // long executions are better spent by the workers
            if t0.elapsed() > Duration::from_secs(1) && leaves.len() + next.len() + level.len() >= 16 {
                leaves.push(p.clone());
                continue;
            }
            note(p);
            let (ch, _v) = run_one(f, p.clone(), false);
            if ch.trace.len() <= p.len() {
                leaves.push(p.clone());
            } else {
                let n = ch.trace[p.len()].1;
                for c in 0..n {
                    let mut q = p.clone();
                    q.push(c);
                    next.push(q);
                }
            }
        }
        level = next;
    }
    leaves.extend(level);
    leaves
}
