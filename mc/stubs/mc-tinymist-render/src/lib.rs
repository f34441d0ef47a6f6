use tinymist_query::LocalContext;
use tinymist_std::typst::TypstDocument;
#[derive(Debug, Clone)]
pub struct PeriscopeArgs;
pub struct PeriscopeRenderer;
impl PeriscopeRenderer {
    pub fn new(_: PeriscopeArgs) -> Self {
        Self
    }
    pub fn render_marked(&self, _: &mut LocalContext, _: &TypstDocument, _: typst::layout::Position) -> Option<String> {
        None
    }
}
