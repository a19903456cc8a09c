mod clock;
mod ctx;
mod drive;
mod high;
mod hist;
mod model;
mod oracle;
mod verify;
mod c_index;
mod c_bounds;
mod c_det;
mod c_io;
mod c_capi;
mod c_proto;
mod c_py;
mod c_res;
mod c_misc;
mod poison;
mod race;
mod c_sync;
mod net;
mod noise;
mod sys;
mod c_write;

use ctx::{Ctx, Tier};

#[global_allocator]
static ALLOC: poison::Poison = poison::Poison;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "child" {
        child(&args[2..]);
        return;
    }
    let mut tier = Tier::Quick;
    let mut only = None;
    let mut out = "/dev/null".to_string();
    let mut stuck = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--thorough" => tier = Tier::Thorough,
            "--only" => {
                i += 1;
                only = Some(args[i].clone());
            }
            "--out" => {
                i += 1;
                out = args[i].clone();
            }
            "--stuck" => {
                i += 1;
                stuck = Some(args[i].parse::<u64>().unwrap() * 1000);
            }
            a => {
                eprintln!("unknown argument {a}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    oracle::self_test();
    clock::self_test();
    noise::install();
    std::panic::set_hook(Box::new(|_| {}));
    let ctx = Ctx::new(&id, tier, cfg!(tsfile_verif_small), only);
    let f: fn(&Ctx) = match id.as_str() {
        "C01" => c_write::c01,
        "C02" => c_write::c02,
        "C03" => c_write::c03,
        "C04" => c_write::c04,
        "C05" => c_index::c05,
        "C07" => c_index::c07,
        "C09" => c_bounds::c09,
        "C10" => c_det::c10,
        "C11" => c_det::c11,
        "C12" => c_io::c12,
        "C13" => c_io::c13,
        "C14" => c_io::c14,
        "C15" => c_io::c15,
        "C16" => c_io::c16,
        "C17" => c_misc::c17,
        "C18" => c_misc::c18,
        "C19" => c_misc::c19,
        "C20" => c_sync::c20,
        "C21" => c_sync::c21,
        "C22" => c_sync::c22,
        "C23" => c_capi::c23,
        "C24" => c_py::c24,
        "C25" => c_proto::c25,
        "C26" => c_res::c26,
        "C06" => c_write::c06,
        "C08" => c_write::c08,
        _ => {
            eprintln!("unknown check {id}");
            std::process::exit(2);
        }
    };
    ctx::watch(stuck);
    f(&ctx);
    std::process::exit(ctx.finish(&out));
}

/// Modes of child processes started by the checks themselves
fn child(a: &[String]) {
    let kind = a.first().map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    match kind {
        "digest" => println!("{}", c_det::child_digest()),
        "c11" => println!("{}", c_det::c11_child(&a[1])),
        "race" => println!("{}", c_det::race_child(num(1), num(2), num(3))),
        "start" => c_sync::child_start(&a[1], &a[2], &a[3]),
        "capi" => c_capi::child(a[1] == "1", num(2), num(3), &a[4], a.get(5).map(|s| s.as_str())),
        "res" => c_res::child(num(1), num(2), a[3] == "1", &a[4], a.get(5).map(|s| s.as_str())),
        "file" => c_io::child_file(num(1), &a[2]),
        "rlimit" => c_io::child_rlimit(num(1), &a[2]),
        "path" => {
            let r = std::panic::catch_unwind(|| c_io::child_path(num(1), a[2] == "1"));
            match r {
                Ok(Ok(())) => println!("ok"),
                Ok(Err(e)) => println!("{e}"),
                Err(p) => println!("panic: {}", ctx::panic_text(&*p)),
            }
        }
        _ => std::process::exit(2),
    }
}
