//! The conversions between the editor's and the compiler's files and places,
//! and stand-ins for what the server's project code needs of the analyses.
mod prelude;

pub mod lsp_typst_boundary;
pub use lsp_typst_boundary::*;

use std::collections::HashMap;
use std::path::Path;

use ecow::EcoVec;
use lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range, Url};
use tinymist_project::{LspCompiledArtifact, LspWorld};
use tinymist_world::vfs::PathResolution;
use typst::diag::{Severity, SourceDiagnostic};
use typst::World;

pub type DiagnosticsMap = HashMap<Url, EcoVec<Diagnostic>>;

#[derive(Debug, Clone, Copy, Default)]
pub enum ColorTheme {
    #[default]
    Light,
    Dark,
}

pub struct LocalContext;

/// What the diagnostics of a file are: those of the compiler, where it says.
pub fn convert_diagnostics<'a>(
    world: &LspWorld,
    errors: impl IntoIterator<Item = &'a SourceDiagnostic>,
    _: PositionEncoding,
) -> DiagnosticsMap {
    let mut out = DiagnosticsMap::default();
    for e in errors {
        let id = e.span.id().unwrap_or_else(|| world.main());
        let Ok(path) = world.path_for_id(id) else { continue };
        let uri = match path {
            PathResolution::Resolved(p) => path_to_url(&p),
            r => path_res_to_url(r),
        };
        let Ok(uri) = uri else { continue };
        out.entry(uri).or_default().push(Diagnostic {
            range: Range::new(Position::new(0, 0), Position::new(0, 0)),
            severity: Some(match e.severity {
                Severity::Error => DiagnosticSeverity::ERROR,
                Severity::Warning => DiagnosticSeverity::WARNING,
            }),
            message: e.message.to_string(),
            ..Default::default()
        });
    }
    out
}

pub struct CheckRequest {
    pub snap: LspCompiledArtifact,
}
impl SemanticRequest for CheckRequest {
    type Response = DiagnosticsMap;
    /// The diagnostics of the compiler, and that it was checked.
    fn request(self, _: &mut LocalContext) -> Option<DiagnosticsMap> {
        Some(convert_diagnostics(self.snap.world(), self.snap.diagnostics(), PositionEncoding::Utf16))
    }
}
pub trait SemanticRequest {
    type Response;
    fn request(self, ctx: &mut LocalContext) -> Option<Self::Response>;
}

pub enum CompilerQueryRequest {
    Hover(std::path::PathBuf),
}
impl From<&CompilerQueryRequest> for &'static str {
    fn from(_: &CompilerQueryRequest) -> Self {
        "hover"
    }
}
impl CompilerQueryRequest {
    pub fn associated_path(&self) -> Option<&Path> {
        match self {
            CompilerQueryRequest::Hover(p) => Some(p),
        }
    }
}

pub mod analysis {
    use super::*;
    use std::sync::Arc;
    use tinymist_project::LspComputeGraph;
    use tinymist_world::args::TaskWhen;
    use tinymist_std::typst::TypstDocument;

    pub struct LspQuerySnapshot {
        pub snap: LspComputeGraph,
    }
    #[derive(Clone, Default)]
    pub struct CompletionFeat;
    pub trait PeriscopeProvider {
        fn periscope_at(&self, _: &mut LocalContext, _: &TypstDocument, _: typst::layout::Position) -> Option<String> {
            None
        }
    }
    #[derive(Default)]
    pub struct Analysis {
        pub position_encoding: PositionEncoding,
        pub allow_overlapping_token: bool,
        pub allow_multiline_token: bool,
        pub remove_html: bool,
        pub completion_feat: CompletionFeat,
        pub color_theme: ColorTheme,
        pub lint: TaskWhen,
        pub periscope: Option<Arc<dyn PeriscopeProvider + Send + Sync>>,
        pub tokens_caches: Arc<()>,
        pub workers: (),
        pub caches: (),
        pub analysis_rev_cache: Arc<()>,
        pub stats: Arc<()>,
    }
    impl Analysis {
        pub fn enter(&self, _: LspWorld) -> LocalContext {
            LocalContext
        }
        pub fn query_snapshot(self: Arc<Self>, snap: LspComputeGraph, _: Option<&CompilerQueryRequest>) -> LspQuerySnapshot {
            LspQuerySnapshot { snap }
        }
    }
}
