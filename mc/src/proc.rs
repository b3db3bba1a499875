//! A krill-sync process under control: spawned with the shim, every intercepted operation arrives as a
//! `Req` and blocks the process until `reply`.
use std::ffi::CString;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    OpenW, OpenR, Write, Rename, Unlink, Rmdir, Mkdir, Symlink, Link, Utimes, Trunc, Copy, Fsync, Flock, Sleep,
    Connect, Chmod, Escape, Read, Spawn, Resolve, Close,
}
const OPS: [Op; 22] = [
    Op::OpenW, Op::OpenR, Op::Write, Op::Rename, Op::Unlink, Op::Rmdir, Op::Mkdir, Op::Symlink, Op::Link, Op::Utimes,
    Op::Trunc, Op::Copy, Op::Fsync, Op::Flock, Op::Sleep, Op::Connect, Op::Chmod, Op::Escape, Op::Read, Op::Spawn,
    Op::Resolve, Op::Close,
];
impl Op {
    pub fn mutates(self) -> bool {
        !matches!(self, Op::OpenR | Op::Read | Op::Flock | Op::Sleep | Op::Connect | Op::Escape | Op::Spawn
            | Op::Resolve | Op::Close | Op::Fsync)
    }
    pub fn num(self) -> i64 { OPS.iter().position(|o| *o == self).unwrap() as i64 + 1 }
    pub fn from_num(n: u32) -> Op { OPS[n as usize - 1] }
}

/// p1/p2 are absolute, resolved by the shim
#[derive(Clone, Debug)]
pub struct Req { pub op: Op, pub a: i64, pub b: i64, pub p1: String, pub p2: String }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act { Go, Fail(i32), Short(i64), Kill }

#[derive(Clone, Debug, Default)]
pub struct Exit { pub code: Option<i32>, pub signal: Option<i32>, pub killed: bool, pub hung: bool, pub out: String, pub err: String }
impl Exit {
    pub fn ok(&self) -> bool { self.code == Some(0) }
    pub fn text(&self) -> String {
        format!("{}{}", if self.killed { "killed".into() } else if self.hung { "hung".into() } else if let Some(c) = self.code { format!("exit {c}") }
            else { format!("signal {:?}", self.signal) }, if self.err.is_empty() { String::new() } else { format!(" stderr: {}", clip(&self.err, 300)) })
    }
}
pub fn clip(s: &str, n: usize) -> String { let t: String = s.chars().take(n).collect(); t.replace('\n', " | ") }

pub enum Ev { Req(Req), Exit(Exit) }

pub struct Proc { pid: i32, sock: OwnedFd, out: String, err: String, done: bool, pub hang_s: u64 }

pub const FL_READS: u32 = 1;
pub const FL_RDDATA: u32 = 2;

pub struct Env<'a> {
    pub bin: &'a str, pub shim: &'a str, pub root: &'a str, pub clock: &'a str, pub outfile: String, pub flags: u32,
    pub extra: &'a [(String, String)],
}

extern "C" { fn posix_spawn_file_actions_addchdir_np(a: *mut libc::posix_spawn_file_actions_t, p: *const libc::c_char) -> libc::c_int; }
fn cstr(s: &str) -> CString { CString::new(s).unwrap() }

impl Proc {
    pub fn spawn(args: &[String], e: &Env) -> Proc {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(0, libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()));
            let mine = OwnedFd::from_raw_fd(fds[0]);
            let theirs = OwnedFd::from_raw_fd(fds[1]);
            let mut fa: libc::posix_spawn_file_actions_t = std::mem::zeroed();
            libc::posix_spawn_file_actions_init(&mut fa);
            let out = format!("{}.out", e.outfile);
            let err = format!("{}.err", e.outfile);
            let null = cstr("/dev/null");
            let (co, ce) = (cstr(&out), cstr(&err));
            let wflags = libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC;
            libc::posix_spawn_file_actions_addopen(&mut fa, 0, null.as_ptr(), libc::O_RDONLY, 0);
            libc::posix_spawn_file_actions_addopen(&mut fa, 1, co.as_ptr(), wflags, 0o644);
            libc::posix_spawn_file_actions_addopen(&mut fa, 2, ce.as_ptr(), wflags, 0o644);
            // relative paths mean something in the scratch directory only
            let croot = cstr(e.root);
            assert_eq!(0, posix_spawn_file_actions_addchdir_np(&mut fa, croot.as_ptr()));
            libc::posix_spawn_file_actions_adddup2(&mut fa, theirs.as_raw_fd(), 199);
            let mut argv = vec![cstr(e.bin)];
            argv.extend(args.iter().map(|a| cstr(a)));
            let mut envv: Vec<CString> = e.extra.iter().map(|(k, v)| cstr(&format!("{k}={v}"))).collect();
            envv.extend([cstr("PATH=/usr/bin:/bin"), cstr("TZ=UTC"), cstr("HOME=/nonexistent"), cstr("RUST_BACKTRACE=0"), cstr("MC_FD=199"),
                cstr(&format!("MC_ROOT={}", e.root)), cstr(&format!("MC_CLOCK={}", e.clock)),
                cstr(&format!("MC_FLAGS={}", e.flags)), cstr(&format!("LD_PRELOAD={}", e.shim))]);
            let mut pa: Vec<*mut libc::c_char> = argv.iter().map(|c| c.as_ptr() as *mut _).collect();
            pa.push(std::ptr::null_mut());
            let mut pe: Vec<*mut libc::c_char> = envv.iter().map(|c| c.as_ptr() as *mut _).collect();
            pe.push(std::ptr::null_mut());
            let mut pid = 0;
            let r = libc::posix_spawn(&mut pid, argv[0].as_ptr(), &fa, std::ptr::null(), pa.as_ptr(), pe.as_ptr());
            libc::posix_spawn_file_actions_destroy(&mut fa);
            if r != 0 { crate::die(&format!("cannot spawn {}: errno {r}", e.bin)); }
            drop(theirs);
            // runaway memory ends the run, not the sandbox
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::prlimit(pid, libc::RLIMIT_AS, &lim, std::ptr::null_mut());
            // neither do many objects need many open files
            let lim = libc::rlimit { rlim_cur: 256, rlim_max: 256 };
            libc::prlimit(pid, libc::RLIMIT_NOFILE, &lim, std::ptr::null_mut());
            Proc { pid, sock: mine, out, err, done: false, hang_s: 20 }
        }
    }
    /// poll for readiness; true if an event is available
    pub fn ready(&self, ms: i32) -> bool {
        let mut p = libc::pollfd { fd: self.sock.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut p, 1, ms) > 0 }
    }
    pub fn next(&mut self) -> Ev {
        let end = Instant::now() + Duration::from_secs(self.hang_s);
        loop {
            if self.ready(1000) { break; }
            if Instant::now() > end {
                self.kill();
                return Ev::Exit(self.reap(false, true));
            }
        }
        let mut buf = [0u8; 9000];
        let n = unsafe { libc::recv(self.sock.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len(), 0) };
        if n <= 0 { return Ev::Exit(self.reap(false, false)); }
        let n = n as usize;
        let u32at = |o: usize| u32::from_ne_bytes(buf[o..o + 4].try_into().unwrap());
        let i64at = |o: usize| i64::from_ne_bytes(buf[o..o + 8].try_into().unwrap());
        if n < 32 || u32at(0) != 0x4d435348 { crate::die("bad message from shim"); }
        let (l1, l2) = (u32at(24) as usize, u32at(28) as usize);
        Ev::Req(Req {
            op: Op::from_num(u32at(4)), a: i64at(8), b: i64at(16),
            p1: String::from_utf8_lossy(&buf[32..32 + l1]).into_owned(),
            p2: String::from_utf8_lossy(&buf[32 + l1..32 + l1 + l2]).into_owned(),
        })
    }
    pub fn reply(&mut self, a: Act) {
        let (k, e, n): (i32, i32, i64) = match a { Act::Go => (0, 0, 0), Act::Fail(e) => (1, e, 0), Act::Short(n) => (2, 0, n), Act::Kill => unreachable!() };
        let mut b = [0u8; 16];
        b[0..4].copy_from_slice(&k.to_ne_bytes());
        b[4..8].copy_from_slice(&e.to_ne_bytes());
        b[8..16].copy_from_slice(&n.to_ne_bytes());
        unsafe { libc::send(self.sock.as_raw_fd(), b.as_ptr() as *const _, 16, libc::MSG_NOSIGNAL); }
    }
    fn kill(&mut self) { unsafe { libc::kill(self.pid, libc::SIGKILL); } }
    /// it goes on and on
    pub fn hung_now(&mut self) -> Exit { self.kill(); self.reap(false, true) }
    pub fn kill_now(&mut self) -> Exit { self.kill(); self.reap(true, false) }
    fn reap(&mut self, killed: bool, hung: bool) -> Exit {
        let mut st = 0;
        // the socket is at EOF or the process was killed; give it a moment to exit by itself
        let end = Instant::now() + Duration::from_secs(self.hang_s);
        let mut hung = hung;
        loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, if killed || hung { 0 } else { libc::WNOHANG }) };
            if r == self.pid { break; }
            if r < 0 { crate::die("waitpid failed"); }
            if Instant::now() > end { hung = true; self.kill(); }
            std::thread::sleep(Duration::from_micros(200));
        }
        self.done = true;
        let mut e = Exit { killed, hung, ..Default::default() };
        if !killed && !hung {
            if libc::WIFEXITED(st) { e.code = Some(libc::WEXITSTATUS(st)); } else { e.signal = Some(libc::WTERMSIG(st)); }
            if matches!(e.code, Some(97) | Some(98)) { crate::die(&format!("shim failure, exit {:?}: {}", e.code, rd(&self.err))); }
        }
        e.out = rd(&self.out);
        e.err = rd(&self.err);
        e
    }
}
fn rd(p: &str) -> String {
    let mut b = vec![];
    if let Ok(f) = std::fs::File::open(p) { let _ = f.take(1 << 20).read_to_end(&mut b); }
    String::from_utf8_lossy(&b).into_owned()
}
impl Drop for Proc {
    fn drop(&mut self) { if !self.done { self.kill(); let mut st = 0; unsafe { libc::waitpid(self.pid, &mut st, 0); } } }
}
