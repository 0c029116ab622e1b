#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

mod anchors;
mod axioms;
mod buffers;
mod bytes;
mod checks;
mod dump;
mod effects;
mod eval;
mod interp;
mod fuzzy;
mod leaf;
mod points;
mod query;
mod loops;
mod mat;
mod models;
mod num;
mod ranges;
mod report;
mod roots;
mod search;
mod sem;
mod tables;
mod split;
mod term;
mod twins;
mod val;


fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    let wrapper = args.len() > 1 && args[1].ends_with("rustc");
    if wrapper {
        args.remove(0);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_target = crate_name == "norm" && !args.iter().any(|a| a == "--print" || a == "--test");
    if !is_target {
        let status = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    let r = run_with_tcx!(&args, |tcx| {
        let _ = tcx;
        let code = std::thread::scope(|_| run());
        std::process::exit(code);
        #[allow(unreachable_code)]
        std::ops::ControlFlow::<(), ()>::Continue(())
    });
    let _ = r;
    std::process::exit(101);
}

fn run() -> i32 {
    let cmd = std::env::var("NORMCHECK_CMD").unwrap_or_else(|_| "dump".into());
    match cmd.as_str() {
        "dump" => dump::dump(),
        c if c.starts_with("try ") => roots::try_fn(&c[4..]),
        "bodies" => std::fs::write(std::env::var("NORMCHECK_OUT").expect("output"), dump::bodies()).expect("write result"),
        c if c.starts_with("check ") => {
            let tier = std::env::var("NORMCHECK_TIER").unwrap_or_default();
            let j = checks::check(&c[6..], &tier).json();
            match std::env::var("NORMCHECK_OUT") {
                Ok(p) => std::fs::write(p, j).expect("write result"),
                Err(_) => println!("{j}"),
            }
        }
        _ => panic!("unknown command {cmd}"),
    }
    0
}
