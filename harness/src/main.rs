//! Conformance harness: replays behaviours generated from the TLA+
//! specifications in /verif/specs into the real code of /repo and compares
//! what the code does with what the specification allows.
mod cache;
mod driver;
mod flight;
mod lsp;
mod sched;
mod status;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: vh <driver> IN OUT [--threads N] [--progress FILE]");
        std::process::exit(3);
    }
    if args[1] == "cache_child" {
        return cache::child(&args[2..]);
    }
    let f: driver::CaseFn = match args[1].as_str() {
        "scheduler" => sched::scheduler,
        "governor" => sched::governor,
        "flight" => flight::asynchronous,
        "flight_blocking" => flight::blocking,
        "flight_stress" => flight::stress,
        "cache" => cache::cache,
        "cache_bytes" => cache::bytes,
        "cache_crash" => cache::crash,
        "session" => lsp::session,
        "status" => status::status,
        other => {
            eprintln!("unknown driver {other}");
            std::process::exit(3);
        }
    };
    driver::run(f, &args[2..]);
}
