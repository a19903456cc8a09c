//! Allocator of the harness. When switched on (in child processes that drive the C interface), freed
//! memory is overwritten and kept back for a while, so that use after free and double free show.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::*};

pub struct Poison;

static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);

const MAGIC: u8 = 0xD7;
const SLOTS: usize = 8192;
const LIMIT: usize = 256 << 20;

struct Ring {
    q: [(usize, usize, usize); SLOTS],
    head: usize,
    len: usize,
    bytes: usize,
}
static mut RING: Ring = Ring { q: [(0, 0, 0); SLOTS], head: 0, len: 0, bytes: 0 };

pub fn switch_on() {
    ON.store(true, SeqCst);
}

fn die(m: &str) -> ! {
    unsafe {
        libc::write(1, m.as_ptr() as *const libc::c_void, m.len());
        libc::abort()
    }
}

unsafe fn intact(p: usize, size: usize) -> bool {
    let s = std::slice::from_raw_parts(p as *const u8, size.min(65536));
    s.iter().all(|b| *b == MAGIC)
}

thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

static ALL_ON: AtomicBool = AtomicBool::new(false);
static ALL: AtomicIsize = AtomicIsize::new(0);

/// From here on, the memory of the whole process is counted
pub fn count_all() {
    ALL_ON.store(true, SeqCst);
}

/// Bytes the process has allocated and not freed, since `count_all`
pub fn held_by_all() -> isize {
    ALL.load(SeqCst)
}

fn count(d: isize) {
    if ALL_ON.load(Relaxed) {
        ALL.fetch_add(d, Relaxed);
    }
    let _ = HELD.try_with(|h| {
        h.set(h.get() + d);
        if d > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(h.get())));
        }
    });
}

/// Bytes this thread has allocated and not freed
pub fn held() -> isize {
    HELD.with(|h| h.get())
}

/// The most it held since the last call
pub fn peak() -> isize {
    PEAK.with(|p| p.replace(held()))
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        if !ON.load(Relaxed) {
            return System.dealloc(p, l);
        }
        if l.size() >= 16 && intact(p as usize, 16) {
            die("\nviolation - memory is freed twice\n");
        }
        std::ptr::write_bytes(p, MAGIC, l.size().min(65536));
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let r = &mut *std::ptr::addr_of_mut!(RING);
        let mut out: [(usize, usize, usize); 4] = [(0, 0, 0); 4];
        let mut n = 0;
        while n < 4 && (r.len == SLOTS || (r.len > 0 && r.bytes + l.size() > LIMIT)) {
            out[n] = r.q[r.head];
            r.bytes -= out[n].1;
            r.head = (r.head + 1) % SLOTS;
            r.len -= 1;
            n += 1;
        }
        let at = (r.head + r.len) % SLOTS;
        r.q[at] = (p as usize, l.size(), l.align());
        r.len += 1;
        r.bytes += l.size();
        LOCK.store(false, Release);
        for (p, s, a) in out.iter().take(n) {
            if !intact(*p, *s) {
                die("\nviolation - memory is written after it was freed\n");
            }
            // freed for good: no longer recognizable as freed
            std::ptr::write_bytes(*p as *mut u8, 0, (*s).min(16));
            System.dealloc(*p as *mut u8, Layout::from_size_align_unchecked(*s, *a));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ON.load(Relaxed) {
            count(new as isize - l.size() as isize);
            return System.realloc(p, l, new);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
