mod catalogue;
mod extract;
mod locale;
mod message;

fn main() {
    mccore::main_with(|ctx| match ctx.property.clone().as_str() {
        "N01" => message::messages(ctx),
        "N02" => locale::locales(ctx),
        "N03" => catalogue::catalogues(ctx),
        "N04" => extract::extraction(ctx),
        p => panic!("unknown property {p}"),
    })
}
