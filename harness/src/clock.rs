//! Clock of the harness: every reading of the time by this process goes through `clock_gettime`
//! here, and a thread can put the clock it sees ahead or back.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

thread_local! {
    // seconds, nanoseconds: what the wall clock and the others are ahead by
    static WALL: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static MONO: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

type F = unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> libc::c_int;

/// # Safety
/// as the function of the C library
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let mut p = REAL.load(Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, c"clock_gettime".as_ptr()) as usize;
        REAL.store(p, Relaxed);
    }
    let r = if p == 0 {
        libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
    } else {
        std::mem::transmute::<usize, F>(p)(id, ts)
    };
    let key = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => &WALL,
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => &MONO,
        _ => return r,
    };
    if r == 0 {
        let _ = READS.try_with(|c| c.set(c.get() + 1));
        if let Ok((s, n)) = key.try_with(|c| c.get()) {
            let t = &mut *ts;
            t.tv_sec += s;
            t.tv_nsec += n;
            if t.tv_nsec >= 1_000_000_000 {
                t.tv_nsec -= 1_000_000_000;
                t.tv_sec += 1;
            }
        }
    }
    r
}

/// The wall clock goes by `wall` nanoseconds (or back), the other clocks by `mono`
pub fn advance(wall: i128, mono: i128) {
    let add = |k: &'static std::thread::LocalKey<Cell<(i64, i64)>>, d: i128| {
        k.with(|c| {
            let (s, n) = c.get();
            let t = s as i128 * 1_000_000_000 + n as i128 + d;
            c.set((t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as i64));
        })
    };
    add(&WALL, wall);
    add(&MONO, mono);
}

pub fn reset() {
    WALL.with(|c| c.set((0, 0)));
    MONO.with(|c| c.set((0, 0)));
}

/// Readings of the clock by this thread so far
pub fn reads() -> u64 {
    READS.with(|c| c.get())
}

/// Shows that the shifted clock is the one the standard library reads
pub fn self_test() {
    let (a, m, n) = (std::time::SystemTime::now(), std::time::Instant::now(), reads());
    advance(7_200_000_000_000, 3_600_000_000_000);
    let d = std::time::SystemTime::now().duration_since(a).map_or(0, |d| d.as_secs());
    let e = m.elapsed().as_secs();
    reset();
    assert!((7200..9000).contains(&d) && (3600..5400).contains(&e) && reads() == n + 2, "the clock does not follow: {d} {e}");
}
