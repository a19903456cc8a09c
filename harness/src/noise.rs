//! A program that uses the library may have logging switched on, at every level. Here every message
//! reaches a logger; on threads that say so it is put into words (and thrown away).
use std::cell::Cell;
use std::fmt::Write;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static WORDS: Cell<u64> = const { Cell::new(0) };
}

struct Words;
impl Write for Words {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        WORDS.with(|w| w.set(w.get() + s.len() as u64));
        Ok(())
    }
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            let _ = write!(Words, "{} {} {}", r.level(), r.target(), r.args());
        }
    }
    fn flush(&self) {}
}

pub fn install() {
    static LOGGER: Logger = Logger;
    log::set_logger(&LOGGER).expect("logger");
    log::set_max_level(log::LevelFilter::Trace);
}

pub fn set(on: bool) {
    ON.with(|o| o.set(on));
}

/// Bytes put into words by this thread
pub fn words() -> u64 {
    WORDS.with(|w| w.get())
}
