//! What `reflexo-typst` re-exports of typst and of tinymist's own crates.
pub use tinymist_std::path;
pub use tinymist_std::typst::TypstDocument;
pub use tinymist_world::{CompilationTask, ExportComputation};
pub use ::typst::foundations::Bytes;
pub use ::typst::utils::LazyHash;

pub mod typst {
    pub mod prelude {
        pub use ::typst::ecow::{eco_vec, EcoVec};
    }
}
pub enum DiagnosticFormat {
    Human,
}
pub mod diag {
    use tinymist_std::error::prelude::*;
    pub fn print_diagnostics<W, D>(_: &W, _: D, _: crate::DiagnosticFormat) -> Result<()> {
        Ok(())
    }
}
pub mod query {
    use tinymist_std::typst::TypstDocument;
    use ::typst::foundations::{IntoValue, Value};
    pub struct Content;
    impl Content {
        pub fn get_by_name(&self, _: &str) -> Result<Value, ()> {
            Err(())
        }
    }
    impl IntoValue for Content {
        fn into_value(self) -> Value {
            Value::None
        }
    }
    pub fn retrieve<W>(_: &W, _: &str, _: &TypstDocument) -> Result<Vec<Content>, String> {
        Ok(vec![])
    }
}
