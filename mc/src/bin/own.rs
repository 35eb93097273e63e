//! C21.
#[path = "../own/ends.rs"]
mod ends;
#[path = "../own/functions.rs"]
mod functions;
#[path = "../own/objects.rs"]
mod objects;
#[path = "../own/track.rs"]
mod track;

#[global_allocator]
static ALLOCATOR: track::Tracker = track::Tracker;

fn main() {
    mc::sys::child_init();
    crossmist::init();
    mc::run::main(|prop, tier| match prop {
        "C21" => [ends::scenarios(tier), functions::scenarios(tier), objects::scenarios(tier)].into_iter().flatten().collect(),
        _ => panic!("unknown property"),
    });
}
