mod base;
mod dap;
mod lsp;
mod wire;

#[global_allocator]
static A: wire::Counting = wire::Counting;

fn main() {
    mccore::watch::alone();
    mccore::main_with(|ctx| {
        match ctx.property.clone().as_str() {
            "L01" => {
                lsp::answers(ctx);
                lsp::values(ctx);
                lsp::long_sessions(ctx)
            }
            "L02" => {
                lsp::lifecycle(ctx, true, true);
                lsp::endings(ctx, true, true)
            }
            "L03" => {
                lsp::replies(ctx);
                lsp::long_sessions(ctx)
            }
            "L04" => {
                lsp::ordering(ctx);
                lsp::values(ctx)
            }
            "L05" => dap::dap(ctx),
            "L06" => wire::framing(ctx),
            "L07" => wire::malformed(ctx),
            "L10" => wire::content(ctx),
            p => panic!("unknown property {p}"),
        }
        base::cleanup();
    })
}
