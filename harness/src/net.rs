//! A scripted Thrift server on the loopback interface, and an independent decoder of the Thrift
//! binary protocol (framed).
use crate::oracle::R;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::time::Duration;

// ---------------------------------------------------------------- protocol

#[derive(Clone, Debug, PartialEq)]
pub enum TV {
    Num(u8, i64),
    Bytes(Vec<u8>),
    Struct(Vec<(i16, TV)>),
    Many(u8, Vec<TV>),
    Map(Vec<(TV, TV)>),
}

impl TV {
    pub fn field(&self, id: i16) -> Option<&TV> {
        match self {
            TV::Struct(f) => f.iter().find(|x| x.0 == id).map(|x| &x.1),
            _ => None,
        }
    }
    /// are all strings UTF-8?
    pub fn clean(&self) -> bool {
        match self {
            TV::Num(..) => true,
            TV::Bytes(b) => std::str::from_utf8(b).is_ok(),
            TV::Struct(f) => f.iter().all(|x| x.1.clean()),
            TV::Many(_, v) => v.iter().all(|x| x.clean()),
            TV::Map(v) => v.iter().all(|x| x.0.clean() && x.1.clean()),
        }
    }
    pub fn text(&self) -> Option<String> {
        match self {
            TV::Bytes(b) => String::from_utf8(b.clone()).ok(),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub name: Vec<u8>,
    pub kind: u8,
    pub seq: i32,
    pub body: TV,
    /// bytes after the body
    pub rest: usize,
}

struct P<'a>(&'a [u8]);
impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.0.len() {
            return Err("ends early".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn num(&mut self, n: usize) -> R<i64> {
        let b = self.take(n)?;
        let mut v: i64 = if b[0] & 0x80 != 0 { -1 } else { 0 };
        for x in b {
            v = v << 8 | *x as i64;
        }
        Ok(v)
    }
    fn bytes(&mut self) -> R<Vec<u8>> {
        let n = self.num(4)?;
        if n < 0 {
            return Err("negative length".into());
        }
        Ok(self.take(n as usize)?.to_vec())
    }
    fn value(&mut self, t: u8, depth: usize) -> R<TV> {
        if depth > 60 {
            return Err("too deep".into());
        }
        Ok(match t {
            2 | 3 => TV::Num(t, self.num(1)?),
            4 | 10 => TV::Num(t, self.num(8)?),
            6 => TV::Num(t, self.num(2)?),
            8 => TV::Num(t, self.num(4)?),
            11 => TV::Bytes(self.bytes()?),
            12 => {
                let mut f = vec![];
                loop {
                    let t = self.take(1)?[0];
                    if t == 0 {
                        return Ok(TV::Struct(f));
                    }
                    let id = self.num(2)? as i16;
                    f.push((id, self.value(t, depth + 1)?));
                }
            }
            13 => {
                let (k, v) = (self.take(1)?[0], self.take(1)?[0]);
                let n = self.num(4)?;
                let mut m = vec![];
                for _ in 0..n {
                    m.push((self.value(k, depth + 1)?, self.value(v, depth + 1)?));
                }
                TV::Map(m)
            }
            14 | 15 => {
                let e = self.take(1)?[0];
                let n = self.num(4)?;
                let mut m = vec![];
                for _ in 0..n {
                    m.push(self.value(e, depth + 1)?);
                }
                TV::Many(t, m)
            }
            _ => return Err(format!("type {t}")),
        })
    }
}

pub fn head(frame: &[u8]) -> R<(Vec<u8>, u8, i32, usize)> {
    let mut p = P(frame);
    let (name, kind);
    if frame.first().map_or(false, |b| b & 0x80 != 0) {
        let h = p.take(4)?;
        if h[..2] != [0x80, 1] {
            return Err("version".into());
        }
        kind = h[3];
        name = p.bytes()?;
    } else {
        name = p.bytes()?;
        kind = p.take(1)?[0];
    }
    let seq = p.num(4)? as i32;
    Ok((name, kind, seq, frame.len() - p.0.len()))
}

pub fn decode(frame: &[u8]) -> R<Msg> {
    let (name, kind, seq, at) = head(frame)?;
    let mut p = P(&frame[at..]);
    let body = p.value(12, 0)?;
    Ok(Msg { name, kind, seq, body, rest: p.0.len() })
}

/// Does a reader that goes by the numbers of the known fields and not by their type bytes (as
/// generated ones do) find an accepting status?
pub fn lenient_accept(frame: &[u8]) -> bool {
    let at = match head(frame) {
        Ok(h) => h.3,
        Err(_) => return false,
    };
    let mut p = P(&frame[at..]);
    let mut status = |p: &mut P| -> R<Option<i64>> {
        let (mut code, mut text) = (None, false);
        loop {
            let t = p.take(1)?[0];
            if t == 0 {
                return Ok(code.filter(|_| text));
            }
            match p.num(2)? {
                1 => code = Some(p.num(4)?),
                2 => {
                    String::from_utf8(p.bytes()?).map_err(|e| e.to_string())?;
                    text = true;
                }
                _ => {
                    p.value(t, 0)?;
                }
            }
        }
    };
    let mut go = || -> R<Option<i64>> {
        let mut st = None;
        loop {
            let t = p.take(1)?[0];
            if t == 0 {
                return Ok(st);
            }
            match p.num(2)? {
                0 => st = Some(status(&mut p)?.ok_or("incomplete status")?),
                _ => {
                    p.value(t, 0)?;
                }
            }
        }
    };
    matches!(go(), Ok(Some(1)))
}

// -- encoding of answers

pub fn i32b(v: i32) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}
pub fn strb(s: &[u8]) -> Vec<u8> {
    [&i32b(s.len() as i32)[..], s].concat()
}
pub fn field(t: u8, id: i16, v: &[u8]) -> Vec<u8> {
    [&[t][..], &id.to_be_bytes(), v].concat()
}
/// code and message of a status, as a struct
pub fn status(code: i32, msg: &[u8]) -> Vec<u8> {
    [field(8, 1, &i32b(code)), field(11, 2, &strb(msg)), vec![0]].concat()
}
pub fn result(st: &[u8]) -> Vec<u8> {
    [field(12, 0, st), vec![0]].concat()
}
pub fn message(strict: bool, name: &[u8], kind: u8, seq: i32, body: &[u8]) -> Vec<u8> {
    if strict {
        [&[0x80, 1, 0, kind][..], &strb(name), &i32b(seq), body].concat()
    } else {
        [&strb(name)[..], &[kind], &i32b(seq), body].concat()
    }
}
pub fn framed(b: &[u8]) -> Vec<u8> {
    strb(b)
}
pub fn reply(name: &[u8], seq: i32, code: i32) -> Vec<u8> {
    framed(&message(false, name, 2, seq, &result(&status(code, b"ok"))))
}

// ---------------------------------------------------------------- server

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Then {
    Next,
    Fin,
    Rst,
}

pub struct Answer {
    pub bytes: Vec<u8>,
    pub split: bool,
    pub then: Then,
    /// the client may be waiting for more of this answer: do not wait long for its next request
    pub brief: bool,
}

pub fn go(bytes: Vec<u8>) -> Answer {
    Answer { bytes, split: false, then: Then::Next, brief: false }
}

pub fn hang_up() -> Answer {
    Answer { bytes: vec![], split: false, then: Then::Fin, brief: false }
}

/// Called with the number and the raw frame of a request
pub type Handler = Box<dyn FnMut(usize, &[u8]) -> Answer + Send>;

pub struct Script {
    /// of this request (by number) only so many bytes of the stream are read, then the connection ends
    pub cut: Option<(usize, usize, Then)>,
    /// end the connection right after accepting it
    pub shut: Option<Then>,
    pub handler: Handler,
    /// accept further connections after the first one has ended; requests are counted on
    pub again: bool,
}

#[derive(Default, Debug)]
pub struct Seen {
    pub connected: bool,
    pub frames: Vec<Vec<u8>>,
    /// bytes of an incomplete request at the end
    pub partial: Vec<u8>,
    pub timeout: bool,
    /// counted when the script allows several
    pub connections: usize,
}

struct Job {
    script: Script,
    done: Arc<AtomicBool>,
}

pub struct Server {
    pub addr: String,
    tx: Sender<Job>,
    rx: Receiver<Seen>,
    uses: usize,
}

fn end(s: &TcpStream, t: Then) {
    if t == Then::Rst {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(
                s.as_raw_fd(),
                libc::SOL_SOCKET,
                libc::SO_LINGER,
                &l as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::linger>() as u32,
            );
        }
    }
}

/// Reads until `n` bytes; false at the end of the stream
fn fill(s: &mut TcpStream, buf: &mut Vec<u8>, n: usize, seen: &mut Seen) -> bool {
    let mut tmp = vec![0u8; 65536];
    while buf.len() < n {
        // the client sends the length of a frame in a segment of its own: acknowledge it at once
        let on: libc::c_int = 1;
        unsafe {
            libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const libc::c_void, 4);
        }
        let want = (n - buf.len()).min(tmp.len());
        match s.read(&mut tmp[..want]) {
            Ok(0) => return false,
            Ok(k) => buf.extend_from_slice(&tmp[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => {
                if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) {
                    seen.timeout = true;
                }
                return false;
            }
        }
    }
    true
}

fn serve(mut s: TcpStream, sc: &mut Script, mut seen: Seen) -> Seen {
    seen.connected = true;
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
    if let Some(t) = sc.shut {
        end(&s, t);
        return seen;
    }
    for k in seen.frames.len().. {
        let mut buf = vec![];
        if let Some((n, bytes, t)) = sc.cut {
            if n == k {
                fill(&mut s, &mut buf, bytes, &mut seen);
                seen.partial = buf;
                end(&s, t);
                return seen;
            }
        }
        if !fill(&mut s, &mut buf, 4, &mut seen) {
            seen.partial = buf;
            return seen;
        }
        let n = i32::from_be_bytes(buf[..4].try_into().unwrap());
        if !(0..1 << 30).contains(&n) || !fill(&mut s, &mut buf, 4 + n as usize, &mut seen) {
            seen.partial = buf;
            return seen;
        }
        let frame = buf.split_off(4);
        let a = (sc.handler)(k, &frame);
        seen.frames.push(frame);
        let ok = if a.split {
            a.bytes.iter().all(|b| s.write_all(&[*b]).is_ok())
        } else {
            s.write_all(&a.bytes).is_ok()
        };
        if a.then != Then::Next {
            end(&s, a.then);
            return seen;
        }
        if !ok {
            return seen;
        }
        if a.brief {
            let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
        }
    }
    seen
}

impl Server {
    pub fn new() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        l.set_nonblocking(true).expect("loopback");
        let addr = l.local_addr().unwrap().to_string();
        let (tx, jobs) = channel::<Job>();
        let (out, rx) = channel();
        std::thread::spawn(move || {
            for mut j in jobs {
                let mut seen = Seen::default();
                let seen = loop {
                    match l.accept() {
                        Ok((s, _)) => {
                            let _ = s.set_nonblocking(false);
                            seen = serve(s, &mut j.script, seen);
                            if !j.script.again {
                                break seen;
                            }
                            seen.connections += 1;
                            (j.script.cut, j.script.shut) = (None, None);
                        }
                        Err(_) => {
                            if j.done.load(SeqCst) {
                                break seen;
                            }
                            let mut p = libc::pollfd { fd: l.as_raw_fd(), events: libc::POLLIN, revents: 0 };
                            unsafe {
                                libc::poll(&mut p, 1, 5);
                            }
                        }
                    }
                };
                if out.send(seen).is_err() {
                    break;
                }
            }
        });
        Server { addr, tx, rx, uses: 0 }
    }

    /// Runs `client` against the script
    pub fn run<T>(&mut self, script: Script, client: impl FnOnce(&str) -> T) -> (T, Seen) {
        // do not run out of ports in TIME_WAIT
        self.uses += 1;
        if self.uses > 5000 {
            *self = Server::new();
        }
        let done = Arc::new(AtomicBool::new(false));
        self.tx.send(Job { script, done: done.clone() }).expect("server");
        let r = client(&self.addr);
        done.store(true, SeqCst);
        let seen = self.rx.recv().expect("server");
        (r, seen)
    }
}

thread_local! {
    static SERVER: std::cell::RefCell<Option<Server>> = const { std::cell::RefCell::new(None) };
}

/// With the server of this thread
pub fn with_server<T>(script: Script, client: impl FnOnce(&str) -> T) -> (T, Seen) {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        s.get_or_insert_with(Server::new).run(script, client)
    })
}
