mod finger;
mod map;
mod query;

fn main() {
    mccore::main_with(|ctx| match ctx.property.clone().as_str() {
        "H02" => finger::identify(ctx),
        "H03" => map::map(ctx),
        "Q01" => query::query(ctx),
        p => panic!("unknown property {p}"),
    })
}
