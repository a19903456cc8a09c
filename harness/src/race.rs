//! Preemption inside the operations of a writer, instruction by instruction, for C11.
//!
//! Operations of different writers can only influence each other through memory they share, and in a
//! crate without `unsafe` that is reached from its writable static objects. So: no such object, no
//! interference that the order of whole operations does not show. If there are some, a first thread
//! is single-stepped through its writer's life and every instruction that changes one of them is
//! noted; then, just before and just after each of these instructions, the first thread is held and
//! a second one runs its writer's whole (or remaining) life.
use crate::sys::Scratch;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const A_READY: i64 = -4250;
pub const B_READY: i64 = -4251;
pub const B_DONE: i64 = -4252;

/// Set by the first thread when it is through
#[no_mangle]
pub static TSMC_RACE_FLAG: AtomicU64 = AtomicU64::new(0);

pub fn first_is_through() {
    TSMC_RACE_FLAG.store(1, SeqCst);
}

/// Name, address (relative to where the executable is loaded) and size
pub type Object = (String, u64, usize);

/// Writable static objects of the crate under test in this executable, and the flag above
pub fn statics() -> Result<(Vec<Object>, u64), String> {
    let b = std::fs::read("/proc/self/exe").map_err(|e| format!("harness: {e}"))?;
    let u = |at: usize, n: usize| -> Result<u64, String> {
        let s = b.get(at..at + n).ok_or("harness: executable too short")?;
        Ok(s.iter().rev().fold(0, |v, x| v << 8 | *x as u64))
    };
    if b.get(..5) != Some(b"\x7fELF\x02") {
        return Err("harness: not a 64-bit ELF file".into());
    }
    let (shoff, shsize, shnum, shstr) = (u(0x28, 8)? as usize, u(0x3a, 2)? as usize, u(0x3c, 2)? as usize, u(0x3e, 2)? as usize);
    let sec = |i: usize, at: usize, n: usize| u(shoff + i * shsize + at, n);
    let text = |sec_off: u64, at: u64| -> String {
        let from = (sec_off + at) as usize;
        let n = b[from..].iter().position(|c| *c == 0).unwrap_or(0);
        String::from_utf8_lossy(&b[from..from + n]).to_string()
    };
    let names = sec(shstr, 0x18, 8)?;
    let (mut out, mut flag) = (vec![], None);
    for i in 0..shnum {
        if sec(i, 4, 4)? != 2 {
            continue; // no symbol table
        }
        let (off, size, link) = (sec(i, 0x18, 8)?, sec(i, 0x20, 8)?, sec(i, 0x28, 4)? as usize);
        let strings = sec(link, 0x18, 8)?;
        for k in 0..size / 24 {
            let at = (off + k * 24) as usize;
            let (name, info, shndx, value, len) = (u(at, 4)?, u(at + 4, 1)?, u(at + 6, 2)? as usize, u(at + 8, 8)?, u(at + 16, 8)?);
            if info & 15 != 1 || shndx == 0 || shndx >= shnum {
                continue; // not a data object
            }
            let name = text(strings, name);
            if name == "TSMC_RACE_FLAG" {
                flag = Some(value);
            }
            let section = text(names, sec(shndx, 0, 4)?);
            if sec(shndx, 8, 8)? & 1 == 0 || section.starts_with(".data.rel.ro") || len == 0 {
                continue; // not writable
            }
            if name.contains("13tsfile_writer") {
                out.push((name, value, len as usize));
            }
        }
    }
    out.sort();
    out.dedup();
    Ok((out, flag.ok_or("harness: own symbols not found")?))
}

pub struct Run {
    /// numbers of the instructions of the first thread that changed an object
    pub changes: Vec<usize>,
    pub steps: usize,
    /// the second thread had to wait for the first
    pub waited: bool,
    pub hung: bool,
    pub code: Option<i32>,
    pub stdout: String,
}

struct Gone(i32);
impl Drop for Gone {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.0, libc::SIGKILL);
            let mut st = 0;
            loop {
                let r = libc::waitpid(self.0, &mut st, libc::__WALL);
                if r < 0 || (r == self.0 && (libc::WIFEXITED(st) || libc::WIFSIGNALED(st))) {
                    break;
                }
            }
        }
    }
}

const ANY: i32 = libc::__WALL | 0x20000000; // __WNOTHREAD

/// So many instructions after so many changes (or at the next change, should it come earlier: the number of
/// instructions between two changes may differ a little from run to run)
pub type Hold = (usize, usize);

/// Runs `tsmc child race args…`: the first thread up to `hold`, then the second, then both.
/// Without `hold`: the first thread to its end, instruction by instruction.
pub fn run(args: &[String], objects: &[Object], flag: u64, hold: Option<Hold>, limit: usize) -> Result<Run, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?;
    let scratch = Scratch::new("race");
    let outfile = scratch.dir().join("out");
    let out = std::fs::File::create(&outfile).map_err(|e| format!("harness: {e}"))?;
    let mut c = Command::new(&exe);
    c.arg("child").arg("race").args(args).current_dir(scratch.dir());
    c.stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).env_remove("RUST_BACKTRACE");
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000); // no address randomization
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = c.spawn().map_err(|e| format!("harness: cannot trace a child: {e}"))?;
    let pid = child.id() as i32;
    std::mem::forget(child);
    let _gone = Gone(pid);
    let mut st = 0;
    if unsafe { libc::waitpid(pid, &mut st, libc::__WALL) } != pid || !libc::WIFSTOPPED(st) {
        return Err("harness: child did not stop after exec".into());
    }
    let req = |what: u32, tid: i32, data: usize| unsafe { libc::ptrace(what as _, tid, 0usize, data) };
    req(
        libc::PTRACE_SETOPTIONS as u32,
        pid,
        (libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL | libc::PTRACE_O_TRACECLONE) as usize,
    );
    let maps = std::fs::read_to_string(format!("/proc/{pid}/maps")).map_err(|e| format!("harness: {e}"))?;
    let exe = exe.to_string_lossy().to_string();
    let base = maps
        .lines()
        .filter(|l| l.ends_with(&exe))
        .filter_map(|l| u64::from_str_radix(l.split('-').next()?, 16).ok())
        .min()
        .ok_or("harness: executable not mapped")?;
    let (sys, cont, step) = (libc::PTRACE_SYSCALL as u32, libc::PTRACE_CONT as u32, libc::PTRACE_SINGLESTEP as u32);
    // the mark a thread stands at the entry of, if any
    let marked = |tid: i32| -> Option<i64> {
        let mut r: libc::user_regs_struct = unsafe { std::mem::zeroed() };
        unsafe { libc::ptrace(libc::PTRACE_GETREGS, tid, 0, &mut r) };
        let at = r.rdi as i64 as i32 as i64;
        (r.orig_rax as i64 == libc::SYS_close && r.rax as i64 == -38 && [A_READY, B_READY, B_DONE].contains(&at)).then_some(at)
    };
    // signal to deliver with the next resumption
    let pass = |st: i32| -> usize {
        match libc::WSTOPSIG(st) {
            libc::SIGTRAP | libc::SIGSTOP => 0,
            s if s == libc::SIGTRAP | 0x80 => 0,
            s => s as usize,
        }
    };
    let start = Instant::now();
    // both threads to their marks
    let (mut a, mut b) = (0, 0);
    req(sys, pid, 0);
    while a == 0 || b == 0 {
        let t = unsafe { libc::waitpid(-1, &mut st, ANY) };
        if t < 0 || start.elapsed() > Duration::from_secs(60) {
            return Err("harness: lost the child".into());
        }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            if t == pid {
                return Err("harness: the child ended before its threads began".into());
            }
            continue;
        }
        match marked(t) {
            Some(A_READY) => a = t,
            Some(B_READY) => b = t,
            _ => {
                req(sys, t, pass(st));
            }
        }
    }
    // what the first thread changes
    let total: usize = objects.iter().map(|o| o.2).sum::<usize>() + 8;
    let mut buf = vec![0u8; total];
    let remote: Vec<libc::iovec> = objects
        .iter()
        .map(|o| libc::iovec { iov_base: (base + o.1) as *mut _, iov_len: o.2 })
        .chain(std::iter::once(libc::iovec { iov_base: (base + flag) as *mut _, iov_len: 8 }))
        .collect();
    let mut look = |buf: &mut Vec<u8>| -> bool {
        let local = libc::iovec { iov_base: buf.as_mut_ptr() as *mut _, iov_len: total };
        unsafe { libc::process_vm_readv(pid, &local, 1, remote.as_ptr(), remote.len() as u64, 0) == total as isize }
    };
    if !look(&mut buf) {
        return Err("harness: cannot read the child's memory".into());
    }
    let mut run = Run { changes: vec![], steps: 0, waited: false, hung: false, code: None, stdout: String::new() };
    let mut last = buf.clone();
    let mut over = false;
    let mut since = 0;
    let reached = |changes: &[usize], since: usize| match hold {
        Some((k, d)) => changes.len() > k || (changes.len() == k && since >= d),
        None => false,
    };
    while !reached(&run.changes, since) && run.steps < limit {
        req(step, a, 0);
        // a call of the first thread may block only if the second holds something, and it has not begun
        loop {
            let t = unsafe { libc::waitpid(a, &mut st, libc::__WALL) };
            if t == a {
                break;
            }
            return Err("harness: lost the first thread".into());
        }
        if !libc::WIFSTOPPED(st) {
            over = true;
            break;
        }
        if libc::WSTOPSIG(st) != libc::SIGTRAP {
            // a signal of its own (a fault): let it have it and see how it ends
            req(cont, a, libc::WSTOPSIG(st) as usize);
            over = true;
            break;
        }
        run.steps += 1;
        since += 1;
        if !look(&mut buf) {
            return Err("harness: cannot read the child's memory".into());
        }
        if buf != last {
            if buf[total - 8] != 0 {
                break;
            }
            run.changes.push(run.steps);
            since = 0;
            std::mem::swap(&mut buf, &mut last);
        }
    }
    // the second thread, alone
    req(sys, b, 0);
    let mut b_over = false;
    let begun = Instant::now();
    let mut idle = 0;
    loop {
        let t = unsafe { libc::waitpid(b, &mut st, libc::__WALL | libc::WNOHANG) };
        if t == b {
            idle = 0;
            if !libc::WIFSTOPPED(st) {
                b_over = true;
                break;
            }
            if marked(b) == Some(B_DONE) {
                break;
            }
            req(sys, b, pass(st));
            continue;
        }
        std::thread::sleep(Duration::from_micros(200));
        let stat = std::fs::read_to_string(format!("/proc/{pid}/task/{b}/stat")).unwrap_or_default();
        let sleeping = stat.rsplit(')').next().map_or(false, |s| s.trim_start().starts_with('S'));
        idle = if sleeping { idle + 1 } else { 0 };
        if idle > 60 || begun.elapsed() > Duration::from_secs(20) {
            run.waited = true;
            break;
        }
    }
    // both to the end
    if !over {
        req(cont, a, 0);
    }
    if !b_over && !run.waited {
        req(cont, b, 0);
    }
    let begun = Instant::now();
    loop {
        let t = unsafe { libc::waitpid(-1, &mut st, ANY | libc::WNOHANG) };
        if t > 0 {
            if libc::WIFSTOPPED(st) {
                req(cont, t, pass(st));
            } else if t == pid {
                if libc::WIFEXITED(st) {
                    run.code = Some(libc::WEXITSTATUS(st));
                }
                break;
            }
            continue;
        }
        if t < 0 {
            break;
        }
        if begun.elapsed() > Duration::from_secs(30) {
            run.hung = true;
            break;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    run.stdout = std::fs::read_to_string(&outfile).unwrap_or_default();
    Ok(run)
}

/// Where to hold the first thread: just before and just after every change
pub fn positions(changes: &[usize]) -> Vec<Hold> {
    let mut v: Vec<Hold> = vec![];
    let mut last = 0;
    for (k, c) in changes.iter().enumerate() {
        let gap = c - last;
        if gap > 1 {
            v.push((k, gap - 1));
        }
        v.push((k + 1, 0));
        last = *c;
    }
    v
}
