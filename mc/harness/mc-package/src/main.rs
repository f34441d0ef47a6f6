//! K01-K03: the package store and the lock file on real files, with a server of the harness.

#[path = "../../mc-fs/src/sys.rs"]
#[allow(dead_code)]
mod sys;
#[path = "../../mc-fs/src/world.rs"]
#[allow(dead_code)]
mod world;

mod lock;
mod lookup;
mod store;

pub use world::root;

fn main() {
    sys::install();
    mccore::main_with(|ctx| {
        match ctx.property.clone().as_str() {
            "K01" => store::complete(ctx),
            "K02" => lookup::lookup(ctx),
            "K03" => lock::lock(ctx),
            p => panic!("unknown property {p}"),
        }
        world::clean();
    })
}
