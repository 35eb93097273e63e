//! C09, C17.
#[path = "../obj/c09.rs"]
mod c09;
#[path = "../obj/c17.rs"]
mod c17;

/// Pass an object through a channel.
pub fn pass<T: crossmist::Object>(o: &T) -> Result<T, String> {
    let (mut tx, mut rx) = crossmist::channel::<T>().map_err(|e| e.to_string())?;
    tx.send(o).map_err(|e| e.to_string())?;
    rx.recv().map_err(|e| e.to_string())?.ok_or("object lost".into())
}

fn main() {
    crossmist::init();
    mc::run::main(|prop, tier| match prop {
        "C09" => c09::scenarios(tier),
        "C17" => c17::scenarios(tier),
        _ => panic!("unknown property"),
    });
}
