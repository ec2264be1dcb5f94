mod ctx;
mod driver;
mod gen;
mod helper;
mod listgen;
mod memory;
mod model;
mod page;
mod props_engine;
mod props_text;
mod refparse;
mod registry;
mod rng;
mod scen;
mod web;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => driver::run(&args[2]),
        Some("worker") => driver::worker(&args[2..]),
        Some("replay") => driver::replay(&args[2]),
        Some("version") => 0,
        Some("huge") => props_engine::huge_child(&args[2], args[3].parse().unwrap()),
        Some("selftest") => registry::selftest(),
        _ => {
            eprintln!("usage: ncheck run PROPERTY | replay FILE | selftest");
            2
        }
    };
    std::process::exit(code);
}
