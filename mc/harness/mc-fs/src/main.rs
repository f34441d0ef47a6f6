mod atomic;
mod helpers;
mod locks;
mod sys;
mod trees;
mod world;

pub use world::root;

fn main() {
    sys::install();
    mccore::main_with(|ctx| {
        match ctx.property.clone().as_str() {
            "F01" => atomic::atomic_writes(ctx),
            "F02" => helpers::helpers(ctx),
            "F03" => locks::locks(ctx),
            "F04" => trees::trees(ctx),
            p => panic!("unknown property {p}"),
        }
        world::clean();
    })
}
