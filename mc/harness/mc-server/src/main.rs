mod docs;
mod export;
mod mains;
mod rest;
mod srv;
mod uris;

fn main() {
    mccore::main_with(|ctx| match ctx.property.clone().as_str() {
        "S01" => docs::documents(ctx),
        "S02" => rest::at_rest(ctx),
        "X01" => export::exports(ctx),
        "S04" => mains::mains(ctx),
        "S05" => uris::uris(ctx),
        p => panic!("unknown property {p}"),
    })
}
