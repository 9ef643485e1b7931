mod alloc;
mod asked;
mod ctx;
mod forms;
mod futex;
mod gen;
mod io;
mod model;
mod node;
mod props;
mod runner;
mod sched;
mod supervisor;
mod targets;
mod text;
mod typed;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervisor::check(&args[2..]),
        Some("worker") => supervisor::worker(&args[2..]),
        Some("exec") => supervisor::exec(&args[2..]),
        Some("replay") => supervisor::replay(&args[2..]),
        Some("digest") => supervisor::digest(&args[2..]),
        _ => {
            eprintln!("usage: sim check|worker|exec|replay|digest ...");
            2
        }
    };
    std::process::exit(code);
}
