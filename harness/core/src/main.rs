//! Drives the real core code (compiled from /repo) and records what it did.
//! Usage: core-driver <command> <seed> <quick|thorough> <outdir>
mod ffg;
mod guest;
mod prog;
mod scen;
mod ssz;
mod util;
mod verify;
mod world;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, thorough, dir) = (a[2].parse().unwrap(), a[3] == "thorough", a[4].as_str());
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let keep = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var("DRIVER_DEBUG").is_ok() {
            eprintln!("{i}");
        }
        *keep.lock().unwrap() = format!("{i}");
    }));
    let r = std::panic::catch_unwind(|| match a[1].as_str() {
        "ffg" => ffg::run(seed, thorough, dir),
        "abi" => ffg::run_abi(seed, thorough, dir),
        "verify" => verify::run(seed, thorough, dir),
        "small" => verify::run_small(seed, thorough, dir),
        "guest" => guest::run(seed, thorough, dir),
        "prog" => prog::run(seed, thorough, dir),
        "pairs" => verify::run_pairs(seed, thorough, dir),
        c => panic!("unknown command {c}"),
    });
    if r.is_err() {
        // what the code under test throws is caught where it is called
        let m = last.lock().unwrap();
        println!("{}{m}", if m.contains("at /repo/") { "" } else { "DRIVER-ERROR " });
        std::process::exit(101);
    }
}
