pub mod preview {
    use crate::project::LspCompiledArtifact;
    pub struct PreviewCompileView {
        pub art: LspCompiledArtifact,
    }
    impl typst_preview::CompileView for PreviewCompileView {
        fn shown(&self) -> String {
            match &self.art.doc {
                Some(tinymist_std::typst::TypstDocument::Paged(d)) => d.pages.iter().map(|p| p.text.as_str()).collect(),
                Some(tinymist_std::typst::TypstDocument::Html(d)) => d.text.clone(),
                None => "an error".into(),
            }
        }
    }
    #[derive(Default)]
    pub struct PreviewState {
        pub watchers: crate::project::ProjectPreviewState,
    }
    impl PreviewState {
        pub fn stop_all(&mut self) {}
    }
}
pub mod word_count {
    use serde::{Deserialize, Serialize};
    use tinymist_std::typst::TypstDocument;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct WordsCount {
        pub words: usize,
    }
    /// The length of the document's text.
    pub fn word_count(doc: &TypstDocument) -> WordsCount {
        let words = match doc {
            TypstDocument::Paged(d) => d.pages.iter().map(|p| p.text.len()).sum(),
            TypstDocument::Html(d) => d.text.len(),
        };
        WordsCount { words }
    }
}
