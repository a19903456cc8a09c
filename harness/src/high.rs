//! Files that begin far behind the start of their sink, so that their offsets pass 2^31 and 2^32.
//! The writer's own position counts from the start of the sink; what lies before the file is
//! given to the sink as one slice of untouched memory and thrown away.
use crate::ctx::{panic_text, Ctx};
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::oracle::{self, R};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use tsfile_writer::writer::verif;

/// Address space that is only used where it is touched.
struct Map {
    p: *mut u8,
    len: usize,
}

impl Map {
    fn new(len: usize) -> Option<Map> {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return None;
        }
        let m = Map { p: p as *mut u8, len };
        unsafe { libc::madvise(p, len, libc::MADV_NOHUGEPAGE) };
        m.bytes(0, oracle::MAGIC.len() + 1).copy_from_slice(b"TsFile\x03");
        Some(m)
    }
    #[allow(clippy::mut_from_ref)]
    fn bytes(&self, from: usize, n: usize) -> &mut [u8] {
        assert!(from + n <= self.len);
        unsafe { std::slice::from_raw_parts_mut(self.p.add(from), n) }
    }
}

impl Drop for Map {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p as *mut libc::c_void, self.len) };
    }
}

/// Keeps only what follows the first `skip` bytes.
#[derive(Clone)]
struct Far(Arc<Mutex<(usize, Vec<u8>)>>);

impl Write for Far {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let s = &mut *self.0.lock().unwrap();
        let n = s.0.min(buf.len());
        s.0 -= n;
        s.1.extend_from_slice(&buf[n..]);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const ROOM: usize = 16 << 20;

fn file_at(map: &Map, base: usize, c: &Case, degree: Option<usize>) -> Result<usize, String> {
    let sink = Far(Arc::new(Mutex::new((base, vec![]))));
    let filler: &[u8] = map.bytes(0, base);
    let s2 = sink.clone();
    let mut w = match catch_unwind(AssertUnwindSafe(|| verif::writer_behind(filler, build_schema(c.sch), s2, degree))) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return Err(format!("writer could not be created: {e:?}")),
        Err(p) => return Err(format!("writer could not be created: {}", panic_text(&*p))),
    };
    for (o, why) in c.ops.iter().zip(&c.why) {
        let r = apply(&mut w, o);
        if !agrees(&r, why) {
            return Err(format!("{}: {r:?}", show_ops(std::slice::from_ref(o))));
        }
    }
    let r = apply(&mut w, &Op::Close);
    if !r.is_ok() {
        return Err(format!("close: {r:?}"));
    }
    let s = sink.0.lock().unwrap();
    if s.0 != 0 || s.1.len() > ROOM {
        return Err(format!("{} bytes of the file, {} before it missing", s.1.len(), s.0));
    }
    map.bytes(base, s.1.len()).copy_from_slice(&s.1);
    Ok(base + s.1.len())
}

/// Every position of 2^31 and of 2^32 within (and just before and behind) the files of several
/// histories.
pub fn far_offsets(ctx: &Ctx, f: impl Fn(&[u8], &Model, usize) -> R<()> + Sync) {
    if !ctx.small {
        return;
    }
    let per = ctx.pick(10usize, 60);
    let limits = [1usize << 31, 1 << 32];
    // histories: several pages, chunk groups, devices; index nodes of several levels
    let make = |i: usize| -> (Vec<Ser>, Vec<A>, usize) {
        let mut sch = mixed(i % 10);
        if i % 2 == 1 {
            sch.push(ser("d0", "t", Ty::F32, Enc::Plain, Comp::Raw));
            sch.push(ser("d3", "t", Ty::I32, Enc::Diff, Comp::Snappy));
        }
        let mut v = vec![];
        let mut x = i + 1;
        for _ in 0..2 + i % 4 {
            let s = sch[x % sch.len()];
            v.push(A::Burst(s.dev, s.sen, [2, 5, 17][x % 3]));
            x = x * 7 + 3;
        }
        (sch, v, 2 + i % 3)
    };
    let len_of = |i: usize| {
        let (sch, v, deg) = make(i);
        let mut c = Case::new(&sch);
        v.iter().for_each(|a| c.push(a));
        conform(&c, &Sink::new(), Some(deg)).map(|b| b.len())
    };
    ctx.par(per * limits.len(), |j| {
        let (i, limit) = (j % per, limits[j / per]);
        let n = match catch_unwind(AssertUnwindSafe(|| len_of(i))) {
            Ok(Ok(n)) => n,
            Ok(Err(e)) => return ctx.violation(format!("far/{i}/length"), e),
            Err(p) => return ctx.violation(format!("far/{i}/length"), panic_text(&*p)),
        };
        let Some(map) = Map::new(limit + ROOM) else {
            ctx.note("far offsets", "no address space for them");
            return;
        };
        ctx.part("positions of 2^31 and 2^32 within a file", n as u64 + 10);
        let (sch, v, deg) = make(i);
        for p in 0..n + 10 {
            if ctx.stop() {
                return;
            }
            ctx.case(|| format!("far/{i}/{limit}/{p}"), || {
                let base = limit + 5 - p;
                let mut c = Case::new(&sch);
                v.iter().for_each(|a| c.push(a));
                ctx.steps(c.ops.len());
                ctx.state(c.model.fingerprint() ^ (base as u64).wrapping_mul(0x9E3779B97F4A7C15));
                let end = file_at(&map, base, &c, Some(deg))?;
                oracle::with_origin(base, || f(map.bytes(0, end), &c.model, deg)).map_err(|e| {
                    format!("{e} -- file beginning at offset {base} of its sink, schema {:?}; history: {}", c.sch, show_ops(&c.ops))
                })
            });
        }
    });
}
