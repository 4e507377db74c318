//! Conformance harness for state machines reachable only through the guarded
//! `verif-hooks` feature of /repo.
#[path = "../../harness/src/driver.rs"]
#[allow(dead_code)]
mod driver;
mod demand;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let f: driver::CaseFn = match args.get(1).map(String::as_str) {
        Some("demand") => demand::demand,
        other => {
            eprintln!("unknown driver {other:?}");
            std::process::exit(3);
        }
    };
    driver::run(f, &args[2..]);
}
