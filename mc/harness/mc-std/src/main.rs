mod errors;
mod finger;
mod paths;

fn main() {
    mccore::main_with(|ctx| match ctx.property.clone().as_str() {
        "F05" => paths::paths(ctx),
        "H01" => finger::text(ctx),
        "H03" => finger::map(ctx),
        "E01" => {
            errors::install_logger();
            errors::errors(ctx)
        },
        p => panic!("unknown property {p}"),
    })
}
