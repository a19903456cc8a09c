//! Demonstration: exit 0 when the property holds, non-zero when not.
#![allow(dead_code)]
mod ctx;
mod kit;
mod model;
mod oracle;
mod verify;
mod demo;
fn main() {
    match demo::demo() {
        Ok(()) => println!("holds"),
        Err(e) => {
            println!("BROKEN: {}", &e[..e.len().min(600)]);
            std::process::exit(1)
        }
    }
}
