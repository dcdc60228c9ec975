//! Conformance harness: `lib` executes library calls read from stdin (one per
//! line) in one process, `libt` and `libb` by several threads, `exec` runs batches of tool processes.
mod execm;
mod libm;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("lib") => libm::run(),
        Some("libt") => libm::threads(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(8)),
        Some("libb") => libm::blocks(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(8)),
        Some("exec") => execm::run(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(8)),
        _ => {
            eprintln!("usage: vharness lib|libt|libb|exec");
            std::process::exit(2)
        }
    }
}
