//! Drives the real host code (compiled from /repo) and records what it did.
//! Usage: host-driver <command> <seed> <quick|thorough> <outdir>
mod agree;
mod cli;
mod flight;
mod fsx;
mod life;
mod node;
mod search;
mod sim;
mod store;
#[path = "../../core/src/util.rs"]
mod util;
#[path = "../../core/src/world.rs"]
mod world;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, thorough, dir) = (a[2].parse().unwrap(), a[3] == "thorough", a[4].as_str());
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let keep = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var("DRIVER_DEBUG").is_ok() {
            eprintln!("{i}");
        }
        *keep.lock().unwrap() = format!("{i}");
    }));
    let r = std::panic::catch_unwind(|| match a[1].as_str() {
        "flight" => flight::run(seed, thorough, dir),
        "agree" => agree::run(seed, thorough, dir),
        "cli" => cli::run(seed, thorough, dir),
        "store" => store::run(seed, thorough, dir),
        "search" => search::run(seed, thorough, dir),
        c => panic!("unknown command {c}"),
    });
    if r.is_err() {
        let m = last.lock().unwrap();
        println!("{}{m}", if m.contains("at /repo/") { "" } else { "DRIVER-ERROR " });
        std::process::exit(101);
    }
}
