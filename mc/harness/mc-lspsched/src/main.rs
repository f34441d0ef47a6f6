mod server;
mod transport;
mod world;

use server::Proto;

fn main() {
    mccore::main_with(|ctx| match ctx.property.clone().as_str() {
        "L01" => server::answers(ctx, Proto::Lsp),
        "L03" => {
            server::replies(ctx);
            server::chains(ctx)
        }
        "L04" => server::ordering(ctx, Proto::Lsp),
        "L05" => {
            server::answers(ctx, Proto::Dap);
            server::ordering(ctx, Proto::Dap);
            server::dap_events(ctx);
        }
        "L08" => transport::transport(ctx),
        "L09" => transport::mirror(ctx),
        p => panic!("unknown property {p}"),
    })
}
