//! Runtimes: C06.
#[path = "../rt/c06.rs"]
mod c06;
#[path = "../rt/drive.rs"]
mod drive;
#[path = "../rt/procs.rs"]
mod procs;

fn main() {
    mc::sys::child_init();
    crossmist::init();
    mc::run::main(|prop, tier| match prop {
        "C06" => c06::scenarios(tier),
        _ => panic!("unknown property"),
    });
}
