//! The server's state that compilations depend on: documents, projects, main
//! files, diagnostics and exports are the real ones; the requests that read
//! them are left out.
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

use lsp_types::Position as LspPosition;
use sync_ls::TypedLspClient;
use tinymist_std::ImmutPath;
use tinymist_task::{ExportTarget, TaskWhen};
use tokio::sync::mpsc;
use typst::foundations::Dict;
use typst::syntax::Source;
use typst::utils::LazyHash;
use typst::Features;

pub mod actor {
    pub mod editor;
}
pub mod input;
pub mod project;
pub mod route;
pub mod stats;
pub mod task;
pub mod tool;

pub use sync_ls::LspClient;
pub use tinymist_project::world;

use actor::editor::EditorRequest;
use project::{EntryResolver, ImmutDict, NoFonts, ProjectState};
use tinymist_query::PositionEncoding;

pub struct ServerState {
    pub client: TypedLspClient<Self>,
    pub route: route::ProjectRouteState,
    pub project: ProjectState,
    pub preview: tool::preview::PreviewState,
    pub pinning_by_user: bool,
    pub pinning_by_preview: bool,
    pub pinning_by_browsing_preview: bool,
    pub focusing: Option<ImmutPath>,
    pub implicit_position: Option<LspPosition>,
    pub ever_focusing_by_activities: bool,
    pub ever_manual_focusing: bool,
    pub config: Config,
    pub memory_changes: HashMap<Arc<Path>, Source>,
    pub editor_tx: mpsc::UnboundedSender<EditorRequest>,
}

pub enum ServerEvent {
    UnpinPrimaryByPreview,
}

#[derive(Clone, Default)]
pub struct ConstConfig {
    pub position_encoding: PositionEncoding,
    pub tokens_overlapping_token_support: bool,
    pub tokens_multiline_token_support: bool,
}
#[derive(Clone, Default)]
pub struct Lint(pub TaskWhen);
impl Lint {
    pub fn when(&self) -> TaskWhen {
        self.0.clone()
    }
}
#[derive(Clone, Default)]
pub struct Config {
    pub const_config: ConstConfig,
    pub entry_resolver: EntryResolver,
    pub has_default_entry_path: bool,
    pub export: task::ExportUserConfig,
    pub periscope_args: Option<tinymist_render::PeriscopeArgs>,
    pub support_html_in_markdown: bool,
    pub completion: tinymist_query::analysis::CompletionFeat,
    pub color_theme: Option<String>,
    pub lint: Lint,
    pub export_target: ExportTarget,
    pub inputs: Dict,
}
impl Config {
    pub fn export(&self) -> task::ExportUserConfig {
        self.export.clone()
    }
    pub fn inputs(&self) -> ImmutDict {
        Arc::new(LazyHash::new(self.inputs.clone()))
    }
    pub fn certification_path(&self) -> Option<ImmutPath> {
        None
    }
    pub fn package_opts(&self) {}
    pub fn typst_features(&self) -> Option<Features> {
        None
    }
    pub fn fonts(&self) -> Arc<NoFonts> {
        Arc::new(NoFonts::default())
    }
}

impl ServerState {
    pub fn new(client: TypedLspClient<ServerState>, config: Config, editor_tx: mpsc::UnboundedSender<EditorRequest>) -> Self {
        let watchers = project::ProjectPreviewState::default();
        let project = Self::project(&config, editor_tx.clone(), client.clone(), watchers.clone());
        Self {
            client,
            route: Default::default(),
            project,
            preview: tool::preview::PreviewState { watchers },
            pinning_by_user: false,
            pinning_by_preview: false,
            pinning_by_browsing_preview: false,
            focusing: None,
            implicit_position: None,
            ever_focusing_by_activities: false,
            ever_manual_focusing: false,
            config,
            memory_changes: HashMap::new(),
            editor_tx,
        }
    }
    pub fn const_config(&self) -> &ConstConfig {
        &self.config.const_config
    }
    pub fn entry_resolver(&self) -> &EntryResolver {
        &self.config.entry_resolver
    }
}
