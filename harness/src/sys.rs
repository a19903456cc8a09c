//! Scratch directories, and running a child process under ptrace: every system call between two
//! markers is a scheduling point at which the child can be observed, killed, or have the call fail.
use std::ffi::CString;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new(name: &str) -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!(
            "tsmc-{}-{}-{}",
            std::process::id(),
            name,
            N.fetch_add(1, Relaxed)
        ));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self, s: &str) -> String {
        self.0.join(s).to_str().unwrap().to_string()
    }
    pub fn dir(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub const BEGIN: i64 = -4242;
pub const END: i64 = -4243;

/// Called by the child
pub fn mark(v: i64) {
    unsafe {
        libc::syscall(libc::SYS_close, v);
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub k: usize,
    pub nr: i64,
    pub args: [u64; 6],
    pub ret: i64,
    pid: i32,
}

impl Call {
    /// C string the argument points at
    pub fn path(&self, i: usize) -> String {
        let mut out = vec![];
        let mut at = self.args[i];
        for _ in 0..512 {
            let w = unsafe { libc::ptrace(libc::PTRACE_PEEKDATA, self.pid, at, 0) };
            for b in w.to_ne_bytes() {
                if b == 0 {
                    return String::from_utf8_lossy(&out).to_string();
                }
                out.push(b);
            }
            at += 8;
        }
        String::from_utf8_lossy(&out).to_string()
    }
    /// What a descriptor of the child stands for
    pub fn file(&self, fd: i64) -> Option<std::fs::Metadata> {
        std::fs::metadata(format!("/proc/{}/fd/{}", self.pid, fd as i32)).ok()
    }
    pub fn is(&self, nrs: &[i64]) -> bool {
        nrs.contains(&self.nr)
    }
    pub fn is_write(&self) -> bool {
        self.is(&[libc::SYS_write, libc::SYS_pwrite64, libc::SYS_writev, libc::SYS_pwritev])
    }
}

pub enum Act {
    Go,
    /// kill before the call has any effect
    Kill,
    /// the call has no effect and fails
    Fail(i32),
    /// the call has no effect and returns this
    Return(i64),
    /// set the third argument (byte count)
    Count(u64),
}

pub struct Exit {
    pub killed: bool,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub calls: usize,
}

/// Calls that only concern the process itself (memory, threads, time, randomness). How many there
/// are depends on the allocator and differs from run to run: they are no scheduling points.
const PRIVATE: [i64; 29] = [
    libc::SYS_brk, libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_mprotect, libc::SYS_madvise,
    libc::SYS_futex, libc::SYS_getrandom, libc::SYS_rt_sigaction, libc::SYS_rt_sigprocmask, libc::SYS_rt_sigreturn,
    libc::SYS_sigaltstack, libc::SYS_sched_yield, libc::SYS_sched_getaffinity, libc::SYS_clock_gettime,
    libc::SYS_clock_nanosleep, libc::SYS_nanosleep, libc::SYS_gettid, libc::SYS_getpid, libc::SYS_set_robust_list,
    libc::SYS_rseq, libc::SYS_prctl, libc::SYS_restart_syscall, libc::SYS_exit, libc::SYS_exit_group,
    libc::SYS_prlimit64, libc::SYS_gettimeofday, libc::SYS_time, libc::SYS_set_tid_address,
];

/// Runs this executable with `args` in `dir` under ptrace. `enter` decides at the entry of every
/// call between the markers, `leave` sees it after it returned (true: kill there).
pub fn trace(
    args: &[&str],
    dir: &Path,
    mut enter: impl FnMut(&Call) -> Act,
    mut leave: impl FnMut(&Call) -> bool,
) -> Result<Exit, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?;
    let mut c = Command::new(exe);
    let outfile = dir.join(format!(".tsmc-out-{}", unsafe { libc::gettid() }));
    let out = std::fs::File::create(&outfile).map_err(|e| format!("harness: {e}"))?;
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(out).stderr(Stdio::null());
    c.env_remove("RUST_BACKTRACE");
    unsafe {
        c.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = c.spawn().map_err(|e| format!("harness: cannot trace a child: {e}"))?;
    let pid = child.id() as i32;
    let mut st = 0;
    let wait = |st: &mut i32| unsafe { libc::waitpid(pid, st, libc::__WALL) };
    if wait(&mut st) != pid || !libc::WIFSTOPPED(st) {
        return Err("harness: child did not stop after exec".into());
    }
    unsafe {
        libc::ptrace(
            libc::PTRACE_SETOPTIONS,
            pid,
            0,
            libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL,
        );
    }
    let regs = || -> libc::user_regs_struct {
        unsafe {
            let mut r: libc::user_regs_struct = std::mem::zeroed();
            libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut r);
            r
        }
    };
    let set = |r: &libc::user_regs_struct| unsafe {
        libc::ptrace(libc::PTRACE_SETREGS, pid, 0, r);
    };
    let mut inside = false; // between the markers
    let mut entry = true;
    let mut k = 0usize;
    let mut cur: Option<Call> = None;
    let mut forced: Option<i64> = None;
    let mut sig = 0;
    let mut killed = false;
    let (mut code, mut signal) = (None, None);
    loop {
        unsafe {
            libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, sig);
        }
        sig = 0;
        if wait(&mut st) != pid {
            return Err("harness: lost the child".into());
        }
        if libc::WIFEXITED(st) {
            code = Some(libc::WEXITSTATUS(st));
            break;
        }
        if libc::WIFSIGNALED(st) {
            signal = Some(libc::WTERMSIG(st));
            break;
        }
        let s = libc::WSTOPSIG(st);
        if s != libc::SIGTRAP | 0x80 {
            if s != libc::SIGTRAP {
                sig = s;
            }
            continue;
        }
        let mut r = regs();
        if entry {
            entry = false;
            let nr = r.orig_rax as i64;
            if nr == libc::SYS_close && r.rdi as i64 as i32 as i64 == BEGIN {
                inside = true;
                cur = None;
                continue;
            }
            if nr == libc::SYS_close && r.rdi as i64 as i32 as i64 == END {
                inside = false;
                cur = None;
                continue;
            }
            if !inside || PRIVATE.contains(&nr) {
                cur = None;
                continue;
            }
            let call = Call { k, nr, args: [r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9], ret: 0, pid };
            k += 1;
            match enter(&call) {
                Act::Go => {}
                Act::Kill => killed = true,
                Act::Fail(e) => {
                    r.orig_rax = u64::MAX;
                    set(&r);
                    forced = Some(-(e as i64));
                }
                Act::Return(v) => {
                    r.orig_rax = u64::MAX;
                    set(&r);
                    forced = Some(v);
                }
                Act::Count(n) => {
                    r.rdx = n;
                    set(&r);
                }
            }
            cur = Some(call);
        } else {
            entry = true;
            if let Some(mut c) = cur.take() {
                if let Some(v) = forced.take() {
                    r.rax = v as u64;
                    set(&r);
                }
                c.ret = r.rax as i64;
                if leave(&c) {
                    killed = true;
                }
            }
        }
        if killed {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
            }
            wait(&mut st);
            break;
        }
    }
    std::mem::forget(child);
    let stdout = std::fs::read_to_string(&outfile).unwrap_or_default();
    let _ = std::fs::remove_file(&outfile);
    Ok(Exit { killed, code, signal, stdout, calls: k })
}

/// A file made unreadable for others etc.: run `f` in a forked process of another user.
pub fn cstr(s: &str) -> CString {
    CString::new(s).unwrap()
}
