mod project;
mod resolve;
mod view;
mod watch;

fn main() {
    mccore::main_with(|ctx| match ctx.property.clone().as_str() {
        "V01" => view::views(ctx),
        "V02" => resolve::resolve(ctx),
        "W02" => project::projects(ctx),
        "W01" => watch::watching(ctx),
        p => panic!("unknown property {p}"),
    })
}
