//! Answers from processes in which nothing has happened before.
//!
//! A server is forked off before this process does anything, and forks off a process of its own
//! for each request. What a call gives there depends on nothing but the call.
use std::sync::{Mutex, OnceLock};

struct Server {
    ask: i32,
    answer: i32,
}

static SERVERS: OnceLock<Vec<Mutex<Server>>> = OnceLock::new();

fn read_all(fd: i32, buf: &mut [u8]) -> bool {
    let mut at = 0;
    while at < buf.len() {
        let n = unsafe { libc::read(fd, buf[at..].as_mut_ptr() as *mut libc::c_void, buf.len() - at) };
        if n <= 0 {
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return false;
        }
        at += n as usize;
    }
    true
}

fn write_all(fd: i32, buf: &[u8]) -> bool {
    let mut at = 0;
    while at < buf.len() {
        let n = unsafe { libc::write(fd, buf[at..].as_ptr() as *const libc::c_void, buf.len() - at) };
        if n <= 0 {
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            return false;
        }
        at += n as usize;
    }
    true
}

fn serve(ask: i32, answer: i32, f: fn(usize, &str) -> u64) -> ! {
    loop {
        let mut head = [0u8; 16];
        if !read_all(ask, &mut head) {
            unsafe { libc::_exit(0) }
        }
        let k = usize::from_le_bytes(head[..8].try_into().unwrap());
        let mut text = vec![0u8; usize::from_le_bytes(head[8..].try_into().unwrap())];
        if !read_all(ask, &mut text) {
            unsafe { libc::_exit(0) }
        }
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                let r = f(k, std::str::from_utf8(&text).unwrap_or(""));
                let mut out = [1u8; 9];
                out[1..].copy_from_slice(&r.to_le_bytes());
                write_all(answer, &out);
                libc::_exit(0);
            }
            let mut st = 0;
            if pid < 0 || libc::waitpid(pid, &mut st, 0) != pid || st != 0 {
                write_all(answer, &[0u8; 9]);
            }
        }
    }
}

/// Has to be called while this process has one thread.
pub fn start(n: usize, f: fn(usize, &str) -> u64) {
    let mut servers = vec![];
    for _ in 0..n {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        unsafe {
            if libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) != 0 || libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                panic!("engine: no pipe");
            }
            let parent = libc::getpid();
            match libc::fork() {
                0 => {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if libc::getppid() != parent {
                        libc::_exit(0);
                    }
                    libc::close(a[1]);
                    libc::close(b[0]);
                    let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    if libc::getrlimit(libc::RLIMIT_STACK, &mut lim) == 0 {
                        lim.rlim_cur = lim.rlim_max.min(64 << 20);
                        libc::setrlimit(libc::RLIMIT_STACK, &lim);
                    }
                    serve(a[0], b[1], f)
                }
                p if p < 0 => panic!("engine: cannot fork"),
                _ => {
                    libc::close(a[0]);
                    libc::close(b[1]);
                }
            }
        }
        servers.push(Mutex::new(Server { ask: a[1], answer: b[0] }));
    }
    let _ = SERVERS.set(servers);
}

/// What `f` gives; `None` when the process that called it ended in another way.
pub fn ask(k: usize, text: &str) -> Option<u64> {
    let servers = SERVERS.get().expect("engine: no servers");
    let s = loop {
        match servers.iter().find_map(|s| s.try_lock().ok()) {
            Some(s) => break s,
            None => std::thread::yield_now(),
        }
    };
    let mut m = vec![];
    m.extend_from_slice(&k.to_le_bytes());
    m.extend_from_slice(&text.len().to_le_bytes());
    m.extend_from_slice(text.as_bytes());
    let mut out = [0u8; 9];
    if !write_all(s.ask, &m) || !read_all(s.answer, &mut out) {
        panic!("engine: a server is gone");
    }
    if out[0] == 1 {
        Some(u64::from_le_bytes(out[1..].try_into().unwrap()))
    } else {
        None
    }
}
